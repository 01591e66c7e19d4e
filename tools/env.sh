# Build environment for the symbolic harness (same old compiler as /opt/vp/env.sh, own target dir).
T=/root/.rustup/toolchains
export PATH=/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
export RUSTC=/opt/vp/shim/rustc
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="-C target-cpu=x86-64-v2 $VERIF_CFG --cap-lints allow"
export CARGO_TARGET_DIR=${VERIF_TARGET:-/var/tmp/vbuild/sym}
