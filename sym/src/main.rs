#![feature(const_fn_trait_bound)]
#![allow(dead_code)]
mod arith;
mod cx;
mod dfield;
mod engine;
mod poly;
mod runner;
mod sfield;
mod scen;

use runner::Scenario;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    runner::setup_process();
    let all = scen::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in &all {
                println!("{}\t{}\t{}\t{}", s.prop, s.name, s.tier, s.about);
            }
        }
        Some("run") => {
            let name = args[2].clone();
            let max_paths: usize = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(4000);
            let max_s: f64 = args.get(4).and_then(|x| x.parse().ok()).unwrap_or(300.0);
            let h = std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn(move || {
                    let sc = all.iter().find(|s| s.name == name).expect("no such scenario");
                    run(sc, max_paths, max_s)
                })
                .unwrap();
            let _ = h.join();
        }
        Some("replay") => {
            // replay <scenario> name=value ...
            let name = args[2].clone();
            let vals: Vec<(String, num::BigUint)> = args[3..]
                .iter()
                .map(|a| {
                    let mut it = a.rsplitn(2, '=');
                    let v = it.next().unwrap().parse().unwrap();
                    (it.next().unwrap().to_string(), v)
                })
                .collect();
            let h = std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn(move || {
                    let sc = all.iter().find(|s| s.name == name).expect("no such scenario");
                    (sc.init)();
                    let (o, f) = runner::concrete_run(sc, &vals);
                    println!("outcome: {:?}", o);
                    for (l, _) in &f {
                        println!("failed: {}", l);
                    }
                    let bad = !f.is_empty() || (matches!(o, runner::Outcome::Panic(_)) && !sc.panics_ok);
                    std::process::exit(if bad { 1 } else { 0 });
                })
                .unwrap();
            let _ = h.join();
        }
        _ => eprintln!("usage: sym list | run <scenario> [max_paths] [max_s] | replay <scenario> name=value..."),
    }
}

fn run(sc: &Scenario, max_paths: usize, max_s: f64) {
    let r = runner::explore(sc, max_paths, max_s);
    let e = engine::eng();
    let st = &e.stats;
    let viol: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"label\":\"{}\",\"solver\":\"{}\",\"detail\":\"{}\",\"values\":{{{}}}}}",
                esc(&v.label),
                esc(&v.solver),
                esc(&v.detail),
                v.values.iter().map(|(k, x)| format!("\"{}\":\"{}\"", esc(k), x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    println!(
        "{{\"scenario\":\"{}\",\"property\":\"{}\",\"about\":\"{}\",\"paths\":{},\"infeasible\":{},\"panics\":{},\"decisions\":{},\"generic\":{},\"obligations\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"normal_form_only\":{},\"validated\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"truncated\":{},\"nodes\":{},\"undecided\":{},\"notes\":{},\"samples\":{},\"violations\":[{}]}}",
        sc.name,
        sc.prop,
        esc(sc.about),
        st.paths,
        st.infeasible,
        st.panics,
        st.decisions,
        st.generic,
        st.obligations,
        st.queries,
        st.unsat,
        st.sat,
        st.unknown,
        st.normal_form_only,
        r.validated,
        st.solver_s,
        r.wall_s,
        st.truncated,
        e.node_count(),
        jlist(&st.undecided),
        jlist(&r.notes),
        jlist(&r.samples),
        viol.join(",")
    );
}
