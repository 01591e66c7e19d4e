//! Explores every case of a scenario, discharges the obligations with z3 and replays failures.
use crate::engine::{eng, init_engine, Engine, Infeasible, Unsupported, Violation};
use crate::sfield::{const_table, pbig, Modulus};
use num::BigUint;
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::Instant;

pub struct Scenario {
    pub name: &'static str,
    pub prop: &'static str,
    pub tier: u8, // 0 quick+thorough, 1 thorough only
    pub about: &'static str,
    pub run: fn(),
    pub init: fn(),
    pub panics_ok: bool,
}

thread_local! {}
static mut LAST_PANIC: Option<String> = None;

#[derive(Debug, PartialEq, Clone)]
pub enum Outcome {
    Done,
    Infeasible,
    Panic(String),
    Unsupported(String),
}

pub fn init_for<M: Modulus>() {
    init_engine(Engine::new(&pbig::<M>(), &const_table::<M>()));
}

fn run_once(f: fn()) -> Outcome {
    unsafe {
        LAST_PANIC = None;
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(()) => {
            if eng().infeasible {
                Outcome::Infeasible
            } else {
                Outcome::Done
            }
        }
        Err(p) => {
            if p.is::<Infeasible>() || eng().infeasible {
                Outcome::Infeasible
            } else if let Some(u) = p.downcast_ref::<Unsupported>() {
                Outcome::Unsupported(u.0.clone())
            } else {
                Outcome::Panic(unsafe { LAST_PANIC.clone() }.unwrap_or_else(|| "panic".into()))
            }
        }
    }
}

pub struct Report {
    pub violations: Vec<Violation>,
    pub wall_s: f64,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
    pub validated: usize,
}

pub fn setup_process() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe {
            LAST_PANIC = Some(format!("{} at {}", msg, loc));
        }
        if std::env::var("SYM_BT").is_ok() {
            eprintln!("panic: {} at {}\n{:?}", msg, loc, "");
        }
    }));
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(1 << 30).build_global();
}

pub fn concrete_run(sc: &Scenario, values: &[(String, BigUint)]) -> (Outcome, Vec<(String, Option<u32>)>) {
    {
        let mut e = eng();
        e.script.clear();
        e.begin_path();
        let m: HashMap<String, BigUint> = values.iter().cloned().collect();
        e.concrete = Some(m);
    }
    let o = run_once(sc.run);
    let mut e = eng();
    let f = e.fails.clone();
    e.concrete = None;
    (o, f)
}

pub fn explore(sc: &Scenario, max_paths: usize, max_s: f64) -> Report {
    (sc.init)();
    let t0 = Instant::now();
    let verbose = std::env::var("SYM_V").is_ok();
    if verbose {
        eng().log_decisions = true;
    }
    let mut rep = Report { violations: vec![], wall_s: 0.0, notes: vec![], samples: vec![], validated: 0 };
    // label -> (case number); only one counterexample per label is chased
    let mut chased: HashMap<String, usize> = HashMap::new();
    let mut validated = 0usize;
    let mut mismatch: Vec<Vec<(String, BigUint)>> = vec![];
    loop {
        {
            let mut e = eng();
            e.begin_path();
            // apply the case's decisions as facts first, so the order in which the code meets the
            // comparisons does not matter
            let script = e.script.clone();
            for d in &script {
                if e.infeasible {
                    break;
                }
                let _ = e.decide_zero(d.node_id());
            }
        }
        let outcome = if eng().infeasible { Outcome::Infeasible } else { run_once(sc.run) };
        if verbose {
            eprintln!("path -> {:?}", outcome);
        }
        let mut fails = {
            let mut e = eng();
            e.stats.paths += 1;
            match &outcome {
                Outcome::Infeasible => e.stats.infeasible += 1,
                Outcome::Panic(_) => e.stats.panics += 1,
                Outcome::Unsupported(s) => {
                    let s = format!("unsupported: {}", s);
                    e.stats.undecided.push(s)
                }
                _ => {}
            }
            if outcome == Outcome::Infeasible {
                vec![]
            } else {
                e.fails.clone()
            }
        };
        if let Outcome::Panic(m) = &outcome {
            if !sc.panics_ok {
                fails.push((format!("panic: {}", m), None));
            }
        }
        let fails_empty = fails.is_empty();
        if !fails.is_empty() {
            let saved_script = eng().script.clone();
            let todo: Vec<_> = fails
                .iter()
                .filter(|f| {
                    let c = chased.entry(f.0.clone()).or_insert(0);
                    *c += 1;
                    *c <= 2
                })
                .cloned()
                .collect();
            if !todo.is_empty() {
                // sample inputs on this path, then replay the real code on them
                let mut cands = vec![];
                {
                    let mut e = eng();
                    for a in 0..40 {
                        if let Some(v) = e.sample(a) {
                            cands.push(v);
                        }
                        if cands.len() >= 12 {
                            break;
                        }
                    }
                    if cands.len() < 4 {
                        // the case's facts could not be solved for: inputs chosen without them still
                        // count when the real code fails on them
                        for a in 0..6 {
                            cands.push(e.sample_free(a));
                        }
                    }
                }
                let sat_nodes: Vec<(String, Option<u32>)> = todo.clone();
                let mut confirmed: HashMap<String, Vec<(String, BigUint)>> = HashMap::new();
                for v in &cands {
                    let (o, f2) = concrete_run(sc, v);
                    let mut labels: Vec<String> = f2.iter().map(|x| x.0.clone()).collect();
                    if let Outcome::Panic(m) = &o {
                        if !sc.panics_ok {
                            labels.push(format!("panic: {}", m));
                        }
                    }
                    if verbose {
                        eprintln!("  replay {:?} -> {:?}", o, labels);
                    }
                    for l in labels {
                        confirmed.entry(l).or_insert_with(|| v.clone());
                    }
                    if todo.iter().all(|t| confirmed.contains_key(&t.0)) {
                        break;
                    }
                }
                // restore the symbolic path to translate the failed obligations
                {
                    let mut e = eng();
                    e.script = saved_script.clone();
                    e.begin_path();
                    for d in &saved_script {
                        let _ = e.decide_zero(d.node_id());
                    }
                }
                let _ = run_once(sc.run);
                eng().script = saved_script.clone();
                for (l, node) in sat_nodes {
                    match confirmed.get(&l) {
                        Some(v) => {
                            let solver = match node {
                                Some(n) => {
                                    let q = eng().sat_query(n, v);
                                    let (out, dt) = z3(&q, 20);
                                    let mut e = eng();
                                    e.stats.solver_s += dt;
                                    e.stats.queries += 1;
                                    let first = out.lines().last().unwrap_or("").to_string();
                                    if first == "sat" {
                                        e.stats.sat += 1;
                                    }
                                    first
                                }
                                None => "path facts satisfiable (witnessed by the concrete replay)".into(),
                            };
                            if !rep.violations.iter().any(|x| x.label == l) {
                                rep.violations.push(Violation {
                                    label: l.clone(),
                                    values: v.clone(),
                                    detail: format!("{:?}", outcome),
                                    solver,
                                });
                            }
                        }
                        None => {
                            let s = format!("no concrete witness found for: {}", l);
                            let mut e = eng();
                            if !e.stats.undecided.contains(&s) {
                                e.stats.undecided.push(s);
                            }
                        }
                    }
                }
            }
        }
        if outcome == Outcome::Done && rep.violations.is_empty() && validated < 4 && fails_empty {
            // sanity: replay the real code on concrete inputs satisfying this path's facts
            let saved = eng().script.clone();
            let v = eng().sample(0);
            if let Some(v) = v {
                let (o, f2) = concrete_run(sc, &v);
                match o {
                    Outcome::Done if f2.is_empty() => validated += 1,
                    Outcome::Infeasible => {}
                    o => {
                        rep.notes.push(format!("concrete replay of a clean path disagrees: {:?} {:?}", o, f2));
                        mismatch.push(v);
                    }
                }
            }
            eng().script = saved;
        }
        let over = {
            let mut e = eng();
            let more = e.next_path();
            if !more {
                break;
            }
            e.stats.paths >= max_paths || t0.elapsed().as_secs_f64() > max_s
        };
        if over {
            eng().stats.truncated = true;
            break;
        }
        if rep.violations.len() >= 8 {
            eng().stats.truncated = true;
            break;
        }
    }
    {
        let mut e = eng();
        if e.stats.paths == e.stats.infeasible {
            e.stats.undecided.push("vacuous: no feasible path reached the end of the scenario".to_string());
        }
    }
    // discharge
    let batches = {
        let mut e = eng();
        e.flush_smt();
        std::mem::take(&mut e.smt_batches)
    };
    if let Ok(d) = std::env::var("SYM_DUMP") {
        for (i, b) in batches.iter().enumerate() {
            let _ = std::fs::write(format!("{}/{}_{}.smt2", d, sc.name, i), b);
        }
    }
    for (out, dt) in z3_all(batches) {
        let mut e = eng();
        e.stats.solver_s += dt;
        let mut label = String::new();
        for line in out.lines() {
            match line.trim() {
                "unsat" => {
                    e.stats.queries += 1;
                    e.stats.unsat += 1;
                    if rep.samples.len() < 3 && !label.starts_with("branch") && label != "step" {
                        rep.samples.push(label.clone());
                    }
                }
                "sat" => {
                    e.stats.queries += 1;
                    e.stats.sat += 1;
                    // the normal form says 0 but the solver disagrees: engine inconsistency
                    rep.notes.push(format!("solver disagrees with the normal form on {}", label));
                }
                "unknown" | "timeout" => {
                    e.stats.queries += 1;
                    e.stats.unknown += 1;
                    rep.notes.push(format!("solver gave up on {}", label));
                }
                l if l.starts_with("(error") => rep.notes.push(l.to_string()),
                l => label = l.trim_matches('"').to_string(),
            }
        }
    }
    rep.validated = validated;
    rep.wall_s = t0.elapsed().as_secs_f64();
    rep
}

/// The batches are independent; a few solver processes run side by side.
fn z3_all(batches: Vec<String>) -> Vec<(String, f64)> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::{Arc, Mutex};
    let n = batches.len();
    let batches = Arc::new(batches);
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Vec<Option<(String, f64)>>>> = Arc::new(Mutex::new(vec![None; n]));
    let mut hs = vec![];
    for _ in 0..n.min(4) {
        let (b, nx, o) = (batches.clone(), next.clone(), out.clone());
        hs.push(std::thread::spawn(move || loop {
            let i = nx.fetch_add(1, Ordering::SeqCst);
            if i >= b.len() {
                return;
            }
            let r = z3(&b[i], 10);
            o.lock().unwrap()[i] = Some(r);
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let v = std::mem::take(&mut *out.lock().unwrap());
    v.into_iter().map(|x| x.unwrap_or_default()).collect()
}

pub fn z3(q: &str, timeout_s: u32) -> (String, f64) {
    let t = Instant::now();
    let mut ch = Command::new("z3")
        .arg("-in")
        .arg(format!("-t:{}", timeout_s * 1000))
        .arg(format!("-T:{}", (timeout_s * 6).max(60)))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot run z3");
    let mut si = ch.stdin.take().unwrap();
    let qq = q.to_string();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(qq.as_bytes());
    });
    let out = ch.wait_with_output().expect("z3 output");
    let _ = h.join();
    (String::from_utf8_lossy(&out.stdout).to_string(), t.elapsed().as_secs_f64())
}
