//! SMT back end: one `z3-new -in` process per worker thread, one self-contained query at a time.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Unsat,
    Sat(BTreeMap<String, String>),
    Unknown(String),
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub unsat: AtomicU64,
    pub sat: AtomicU64,
    pub unknown: AtomicU64,
    pub micros: AtomicU64,
    pub bytes: AtomicU64,
}
pub static STATS: Stats = Stats {
    queries: AtomicU64::new(0),
    unsat: AtomicU64::new(0),
    sat: AtomicU64::new(0),
    unknown: AtomicU64::new(0),
    micros: AtomicU64::new(0),
    bytes: AtomicU64::new(0),
};

struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// Solver processes that overrun their own soft limit are ended, which makes the query unknown.
static DEADLINES: Mutex<Vec<(u32, Instant)>> = Mutex::new(vec![]);
pub fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let mut g = DEADLINES.lock().unwrap();
        g.retain(|(pid, t)| {
            if Instant::now() > *t {
                let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                false
            } else {
                true
            }
        });
    });
}
thread_local! {
    static Z: RefCell<Option<Z3>> = const { RefCell::new(None) };
}

pub fn z3_bin() -> String {
    for c in ["/usr/local/bin/z3-new", "/usr/bin/z3"] {
        if std::path::Path::new(c).exists() {
            return c.to_string();
        }
    }
    "z3".to_string()
}
fn start() -> Z3 {
    let mut child = Command::new(z3_bin())
        .args(["-in", "-memory:3000"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start z3");
    let inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Z3 { child, inp, out }
}

/// `body`: declarations and assertions.  `vars`: constants whose values are wanted on sat.
pub fn check(body: &str, vars: &[String], timeout_ms: u64) -> Answer {
    check_using(body, vars, timeout_ms, "(check-sat)")
}
/// Products multiplied out before the solver runs: for polynomial identities.
pub fn check_som(body: &str, timeout_ms: u64) -> Answer {
    check_using(body, &[], timeout_ms, &format!("(check-sat-using (try-for (then (using-params simplify :som true :som_blowup 1000000) smt) {}))", timeout_ms))
}
fn check_using(body: &str, vars: &[String], timeout_ms: u64, cmd: &str) -> Answer {
    let t0 = Instant::now();
    let ans = Z.with(|z| {
        let mut g = z.borrow_mut();
        if g.is_none() {
            *g = Some(start());
        }
        let pid = g.as_ref().unwrap().child.id();
        DEADLINES.lock().unwrap().push((pid, Instant::now() + Duration::from_millis(timeout_ms * 2 + 5000)));
        let r = ask(g.as_mut().unwrap(), body, vars, timeout_ms, cmd);
        DEADLINES.lock().unwrap().retain(|(p, _)| *p != pid);
        if r.is_err() {
            *g = None; // restart next time
        }
        r.unwrap_or_else(Answer::Unknown)
    });
    STATS.queries.fetch_add(1, Ordering::Relaxed);
    STATS.bytes.fetch_add(body.len() as u64, Ordering::Relaxed);
    STATS.micros.fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
    match &ans {
        Answer::Unsat => STATS.unsat.fetch_add(1, Ordering::Relaxed),
        Answer::Sat(_) => STATS.sat.fetch_add(1, Ordering::Relaxed),
        Answer::Unknown(_) => STATS.unknown.fetch_add(1, Ordering::Relaxed),
    };
    ans
}

fn read_line(z: &mut Z3) -> Result<String, String> {
    let mut s = String::new();
    match z.out.read_line(&mut s) {
        Ok(0) => Err("solver ended".into()),
        Ok(_) => Ok(s.trim_end().to_string()),
        Err(e) => Err(e.to_string()),
    }
}

fn ask(z: &mut Z3, body: &str, vars: &[String], timeout_ms: u64, cmd: &str) -> Result<Answer, String> {
    if let Ok(d) = std::env::var("SYMX_DUMP") {
        let n = STATS.queries.load(Ordering::Relaxed);
        let _ = std::fs::write(format!("{d}/q{n}.smt2"), format!("{body}\n{cmd}\n"));
    }
    let mut q = String::with_capacity(body.len() + 200);
    q.push_str("(reset)\n(set-option :timeout ");
    q.push_str(&timeout_ms.to_string());
    q.push_str(")\n");
    q.push_str(body);
    q.push('\n');
    q.push_str(cmd);
    q.push_str("\n(echo \"<<done>>\")\n");
    z.inp.write_all(q.as_bytes()).map_err(|e| e.to_string())?;
    z.inp.flush().map_err(|e| e.to_string())?;
    let mut verdict = None;
    let mut err = None;
    loop {
        let l = read_line(z)?;
        if l.contains("<<done>>") {
            break;
        }
        if l.starts_with("(error") {
            err = Some(l);
        } else if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
            verdict = Some(l);
        }
    }
    if let Some(e) = err {
        return Ok(Answer::Unknown(e)); // any solver error makes the query inconclusive
    }
    match verdict.as_deref() {
        Some("unsat") => Ok(Answer::Unsat),
        Some("sat") => {
            let mut m = BTreeMap::new();
            if !vars.is_empty() {
                for v in vars {
                    writeln!(z.inp, "(get-value ({}))", v).map_err(|e| e.to_string())?;
                }
                writeln!(z.inp, "(echo \"<<done>>\")").map_err(|e| e.to_string())?;
                z.inp.flush().map_err(|e| e.to_string())?;
                let mut all = String::new();
                loop {
                    let l = read_line(z)?;
                    if l.contains("<<done>>") {
                        break;
                    }
                    all.push_str(&l);
                    all.push(' ');
                }
                for v in vars {
                    let pat = format!("(({} ", v);
                    if let Some(p) = all.find(&pat) {
                        let rest = &all[p + pat.len()..];
                        let end = rest.find("))").unwrap_or(rest.len());
                        let val = rest[..end].replace("(- ", "-").replace([')', '('], "").trim().to_string();
                        m.insert(v.clone(), val);
                    }
                }
            }
            Ok(Answer::Sat(m))
        }
        Some(o) => Ok(Answer::Unknown(o.to_string())),
        None => Ok(Answer::Unknown("no verdict".into())),
    }
}
