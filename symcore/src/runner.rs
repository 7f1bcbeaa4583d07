//! Runs the tasks of a property on all cores and writes what came out.
use crate::env::Driver;
use crate::explore::{explore, Limits, Outcome, Status};
use crate::solver;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Task {
    pub id: String,
    pub run: Arc<dyn Fn(&Limits) -> Outcome + Send + Sync>,
    /// Re-run on the real code with the recorded values: failures seen.
    pub replay: Arc<dyn Fn(&[(String, String)]) -> Vec<String> + Send + Sync>,
}

pub fn task<P: ark_ff::PrimeField, D: Driver<P> + 'static>(d: D) -> Task {
    let d = Arc::new(d);
    let (d1, d2) = (d.clone(), d.clone());
    Task {
        id: d.id(),
        run: Arc::new(move |l| explore::<P, D>(&*d1, l)),
        replay: Arc::new(move |inp| {
            let m = inp.iter().filter_map(|(k, v)| Some((k.clone(), crate::explore::parse_mod::<P>(v)?))).collect();
            crate::explore::confirm::<P, D>(&*d2, &m).map(|x| x.0).unwrap_or_default()
        }),
    }
}

fn outcome_json(o: &Outcome) -> Value {
    let s = &o.st;
    let (st, more) = match &o.status {
        Status::Holds => ("holds", json!(null)),
        Status::Violated { inputs, what, replay } => ("violated", json!({"inputs": inputs, "what": what, "confirmed_by": replay})),
        Status::Undecided(m) => ("undecided", json!(m)),
    };
    json!({"id": o.id, "status": st, "detail": more, "paths": s.paths, "infeasible_flips": s.infeasible, "unexplored_flips": s.unexplored,
        "branches": s.decisions, "nodes": s.nodes, "vars": s.vars, "merges": s.merges, "obligations": s.obligations,
        "max_atoms": s.max_atoms, "concretised": s.concretised, "wall_s": s.wall, "sample": s.sample})
}

/// Runs all tasks of a property and writes a result file.  Exit: 0 holds, 1 violated, 3 undecided.
pub fn check(all_tasks: &dyn Fn(&str, bool) -> Vec<Task>, a: &[String]) -> i32 {
    let (prop, tier, out) = (&a[0], &a[1], &a[2]);
    let filter = a.get(3);
    let quick = tier != "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: u64 = std::env::var("SYMX_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 500 } else { 3600 });
    let jobs: usize = std::env::var("SYMX_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    let mut ts = all_tasks(prop, quick);
    if let Some(f) = filter {
        ts.retain(|t| t.id.contains(f.as_str()));
    }
    struct Shared {
        ts: Vec<Task>,
        next: AtomicUsize,
        stop: AtomicUsize,
        skipped: AtomicUsize,
        done: AtomicUsize,
        running: Mutex<Vec<String>>,
        results: Mutex<Vec<Outcome>>,
        lim: Limits,
    }
    let lim = Limits { seed, deadline: t0 + Duration::from_secs(budget), max_paths_mult: if quick { 1 } else { 4 } };
    let sh = Arc::new(Shared { ts, next: AtomicUsize::new(0), stop: AtomicUsize::new(0), skipped: AtomicUsize::new(0), done: AtomicUsize::new(0), running: Mutex::new(vec![]), results: Mutex::new(vec![]), lim });
    solver::watchdog();
    for _ in 0..jobs {
        let s = sh.clone();
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || {
                loop {
                    let i = s.next.fetch_add(1, Ordering::SeqCst);
                    if i >= s.ts.len() || s.stop.load(Ordering::SeqCst) > 0 {
                        break;
                    }
                    if Instant::now() > s.lim.deadline {
                        s.skipped.fetch_add(1, Ordering::SeqCst);
                        continue;
                    }
                    let id = s.ts[i].id.clone();
                    s.running.lock().unwrap().push(id.clone());
                    let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.ts[i].run)(&s.lim))) {
                        Ok(o) => o,
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            Outcome { id: id.clone(), status: Status::Undecided(format!("engine: {m}")), st: Default::default(), functions: vec![] }
                        }
                    };
                    if std::env::var("SYMX_VERBOSE").is_ok() {
                        eprintln!("{}", outcome_json(&o));
                    }
                    if let Status::Violated { .. } = o.status {
                        s.stop.store(1, Ordering::SeqCst);
                    }
                    s.running.lock().unwrap().retain(|x| *x != id);
                    s.results.lock().unwrap().push(o);
                }
                s.done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    // a run of the real code that does not come back cannot be interrupted: it is left behind
    let grace = Duration::from_secs(60);
    let mut stopped: Option<Instant> = None;
    while sh.done.load(Ordering::SeqCst) < jobs {
        std::thread::sleep(Duration::from_millis(20));
        if sh.stop.load(Ordering::SeqCst) > 0 && stopped.is_none() {
            stopped = Some(Instant::now());
        }
        if Instant::now() > sh.lim.deadline + grace || stopped.is_some_and(|t| t.elapsed() > Duration::from_secs(20)) {
            break;
        }
    }
    let mut rs: Vec<Outcome> = std::mem::take(&mut *sh.results.lock().unwrap());
    for id in sh.running.lock().unwrap().iter() {
        rs.push(Outcome { id: id.clone(), status: Status::Undecided("did not finish in time".into()), st: Default::default(), functions: vec![] });
    }
    let (ts, skipped) = (&sh.ts, &sh.skipped);
    rs.sort_by(|a, b| a.id.cmp(&b.id));
    let st = &solver::STATS;
    let l = |x: &std::sync::atomic::AtomicU64| x.load(Ordering::Relaxed);
    let funcs: BTreeSet<&str> = rs.iter().flat_map(|o| o.functions.iter().copied()).collect();
    let viol: Vec<&Outcome> = rs.iter().filter(|o| matches!(o.status, Status::Violated { .. })).collect();
    let und: Vec<&Outcome> = rs.iter().filter(|o| matches!(o.status, Status::Undecided(_))).collect();
    let sk = skipped.load(Ordering::SeqCst);
    let res = json!({
        "property": prop, "tier": tier, "seed": seed, "wall_s": t0.elapsed().as_secs_f64(),
        "debug_assertions": cfg!(debug_assertions),
        "tasks": ts.len(), "decided": rs.len() - und.len(), "skipped_for_time": sk,
        "undecided": und.iter().map(|o| outcome_json(o)).collect::<Vec<_>>(),
        "violations": viol.iter().map(|o| outcome_json(o)).collect::<Vec<_>>(),
        "functions": funcs,
        "solver": {"binary": solver::z3_bin(), "queries": l(&st.queries), "unsat": l(&st.unsat), "sat": l(&st.sat), "unknown": l(&st.unknown), "time_s": l(&st.micros) as f64 / 1e6, "query_bytes": l(&st.bytes)},
        "paths": rs.iter().map(|o| o.st.paths).sum::<usize>(),
        "infeasible_flips": rs.iter().map(|o| o.st.infeasible).sum::<usize>(),
        "unexplored_flips": rs.iter().map(|o| o.st.unexplored).sum::<usize>(),
        "nodes": rs.iter().map(|o| o.st.nodes).sum::<usize>(),
        "obligations": rs.iter().map(|o| o.st.obligations).sum::<usize>(),
        "merged_pairs": rs.iter().map(|o| o.st.merges).sum::<usize>(),
        "concretised": rs.iter().map(|o| o.st.concretised).sum::<usize>(),
        "configs": rs.iter().map(outcome_json).collect::<Vec<_>>(),
    });
    std::fs::write(out, serde_json::to_string_pretty(&res).unwrap()).unwrap();
    println!("{prop}: {} configurations, {} decided, {} violated, {} undecided, {} skipped; {} solver queries ({:.1} s), {:.1} s", ts.len(), rs.len() - und.len() - viol.len(), viol.len(), und.len(), sk, l(&st.queries), l(&st.micros) as f64 / 1e6, t0.elapsed().as_secs_f64());
    for o in &und {
        println!("  undecided {}: {:?}", o.id, o.status);
    }
    for o in &viol {
        if let Status::Violated { what, .. } = &o.status {
            println!("  violated {}: {}", o.id, what.iter().take(3).cloned().collect::<Vec<_>>().join("; "));
        }
    }
    if !viol.is_empty() {
        1
    } else if !und.is_empty() || rs.is_empty() || sk > 0 {
        3
    } else {
        0
    }
}

pub fn replay(all_tasks: &dyn Fn(&str, bool) -> Vec<Task>, f: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let id = v["config"].as_str().unwrap();
    let inputs: Vec<(String, String)> = v["inputs"].as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())).collect();
    for q in [true, false] {
        if let Some(t) = all_tasks(prop, q).into_iter().find(|t| t.id == id) {
            let fs = (t.replay)(&inputs);
            for m in fs.iter().take(10) {
                println!("REPRODUCED {prop} {id}: {m}");
            }
            return if fs.is_empty() { 0 } else { 1 };
        }
    }
    2
}
