//! Runs scenarios (generated from the TLA+ specification) against the real factrs and records what it does.
//! usage: fharness SCENARIOS.ndjson TRACE.ndjson
//! Each scenario is one JSON object with a field "t" naming the driver; the trace gets one object per scenario:
//! {"id": n, "scn": scenario, "ev": [event...]}; a panic or a hang of the code under test is an event too.
mod json;
mod vars;
mod kinds;
mod diff;
mod lie;
mod probs;
mod factors;
mod imu;
mod valmap;
mod keys;
mod cont;
mod solver;
mod optim;
mod g2o;
#[cfg(feature = "rerun")]
mod show;

use json::J;
use std::{
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        mpsc, Arc, Mutex,
    },
    time::Duration,
};

/// Recorded events of the running scenario; kept outside the closure so that they survive a panic.
#[derive(Clone, Default)]
pub struct Rec(Arc<Mutex<Vec<J>>>);
impl Rec {
    pub fn ev(&self, e: J) {
        self.0.lock().unwrap_or_else(|p| p.into_inner()).push(e);
    }
    pub fn take(&self) -> Vec<J> {
        std::mem::take(&mut *self.0.lock().unwrap_or_else(|p| p.into_inner()))
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

/// Runs f; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

fn run(scn: &J, rec: &Rec) {
    match scn.get("t").str() {
        "lieprog" => lie::program(scn, rec),
        "diffjac" => diff::jacobians(scn, rec),
        "diffops" => diff::operations(scn, rec),
        "diffgrp" => diff::group_jacobian(scn, rec),
        "diffpose" => diff::pose_jacobian(scn, rec),
        "diffscalar" => diff::scalar(scn, rec),
        "noise" => factors::noise(scn, rec),
        "kernel" => factors::kernel(scn, rec),
        "factor" => factors::factor_case(scn, rec),
        "facform" => factors::fac_forms(scn, rec),
        "graph" => factors::graph_case(scn, rec),
        "lingraph" => factors::linear_graph(scn, rec),
        "residual" => factors::residual_case(scn, rec),
        "imu" => imu::history(scn, rec),
        "g2o" => g2o::load(scn, rec),
        "lincont" => cont::linear_containers(scn, rec),
        "keys" | "keytypes" => keys::symbols(scn, rec),
        "keyshow" => keys::show(scn, rec),
        "keysweep" => keys::sweep(scn, rec),
        "solver" => solver::history(scn, rec),
        "optloop" => optim::scripted(scn, rec),
        "optobs" => optim::observed(scn, rec),
        "optdirect" => optim::direct(scn, rec),
        "gnstep" => optim::gn_steps(scn, rec),
        "lmstep" => optim::lm_steps(scn, rec),
        "recover" => optim::recover(scn, rec),
        "posed" => optim::posed(scn, rec),
        "values" => valmap::history(scn, rec),
        "lietan" => lie::tangent(scn, rec),
        "liealg" => lie::algebra(scn, rec),
        #[cfg(feature = "rerun")]
        "shown" => show::convert(scn, rec),
        #[cfg(feature = "rerun")]
        "showall" => show::gather(scn, rec),
        #[cfg(feature = "rerun")]
        "showsteps" => show::observe(scn, rec),
        #[cfg(feature = "rerun")]
        "showrun" => show::optimize(scn, rec),
        other => panic!("HARNESS: unknown driver {other}"),
    }
}

/// processor time a thread has used
fn cpu_seconds(who: &Option<std::path::PathBuf>) -> Option<u64> {
    let stat = std::fs::read_to_string(std::path::Path::new("/proc").join(who.as_ref()?).join("stat")).ok()?;
    let rest: Vec<&str> = stat.rsplit_once(')')?.1.split_whitespace().collect();
    Some((rest.get(11)?.parse::<u64>().ok()? + rest.get(12)?.parse::<u64>().ok()?) / 100)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("scenario file");
    let limit: u64 = std::env::var("CASE_TIMEOUT_S").ok().and_then(|x| x.parse().ok()).unwrap_or(30);
    let slow = std::env::var("REPORT_SLOW").is_ok();
    let scns: Arc<Vec<J>> = Arc::new(text.lines().filter(|l| !l.trim().is_empty()).map(J::parse).collect());
    std::panic::set_hook(Box::new(|_| {}));
    let out: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; scns.len()]));
    let next = Arc::new(AtomicUsize::new(0));
    let hangs = Arc::new(AtomicUsize::new(0));
    let workers: Vec<_> = (0..8)
        .map(|_| {
            let (scns, out, next, hangs) = (scns.clone(), out.clone(), next.clone(), hangs.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= scns.len() {
                    break;
                }
                let rec = Rec::default();
                let (tx, rx) = mpsc::channel();
                let (who_tx, who_rx) = mpsc::channel();
                let (s2, r2) = (scns.clone(), rec.clone());
                // stop waiting for cases once several have hung: each leaves a spinning thread behind
                if hangs.load(Ordering::SeqCst) >= 6 {
                    rec.ev(obj! {"e": json::s("skipped")});
                } else {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn(move || {
                            let me = std::fs::read_link("/proc/thread-self").ok();
                            let _ = who_tx.send(me);
                            let res = guarded(|| run(&s2[i], &r2));
                            let _ = tx.send(res);
                        })
                        .unwrap();
                    let who = who_rx.recv().ok().flatten();
                    let began = std::time::Instant::now();
                    // a case hangs when it has used up its time on the processor (or, in case it sleeps, eight times as
                    // much of everybody's time): a busy machine alone is no hang
                    let res = loop {
                        match rx.recv_timeout(Duration::from_millis(500)) {
                            Err(mpsc::RecvTimeoutError::Timeout)
                                if cpu_seconds(&who).unwrap_or(began.elapsed().as_secs()) < limit && began.elapsed().as_secs() < 8 * limit => {}
                            r => break r,
                        }
                    };
                    if slow && began.elapsed().as_secs() >= 2 {
                        eprintln!("case {}: {:?}", i + 1, began.elapsed());
                    }
                    match res {
                        Ok(Ok(())) => {}
                        Ok(Err(m)) => rec.ev(obj! {"e": json::s("panic"), "msg": json::s(&m)}),
                        Err(_) => {
                            hangs.fetch_add(1, Ordering::SeqCst);
                            rec.ev(obj! {"e": json::s("hang")})
                        }
                    }
                }
                let line = obj! {"id": json::int(i + 1), "scn": scns[i].clone(), "ev": J::Arr(rec.take())};
                let mut t = String::new();
                line.write(&mut t);
                out.lock().unwrap()[i] = Some(t);
            })
        })
        .collect();
    for w in workers {
        w.join().unwrap();
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("trace file"));
    for l in out.lock().unwrap().iter() {
        writeln!(f, "{}", l.as_ref().unwrap()).unwrap();
    }
    f.flush().unwrap();
    std::process::exit(0);
}
