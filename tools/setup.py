#!/usr/bin/env python3
"""Nothing has to be built ahead: every check builds what it needs. This only verifies the tools are there."""
import shutil, sys
missing = [t for t in ("z3", "cargo", "bash") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
