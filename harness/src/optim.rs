//! Optimizers: the loop with a scripted optimizer, and Gauss-Newton / Levenberg-Marquardt on real graphs.
use crate::{json::*, kinds::*, obj, probs::*, Rec};
use factrs::{
    containers::{Graph, Key, Values},
    linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver},
    optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptError, OptObserver, OptParams, OptResult, Optimizer},
};

pub fn params(j: &J) -> OptParams {
    OptParams {
        max_iterations: if j.get("max").int() < 0 { usize::MAX } else { j.get("max").us() },
        error_tol: j.get("tol").f() as D,
        error_tol_absolute: j.get("abs").f() as D,
        error_tol_relative: j.get("rel").f() as D,
    }
}

// ------------------------- scripted ------------------------- //
/// an iterate: its number (deliberately not Clone)
struct Tok(i64);
struct Scripted {
    params: OptParams,
    err: Vec<f64>,
    fail: (usize, String),
    steps: usize,
    rec: Rec,
}
impl Optimizer for Scripted {
    type Input = Tok;
    fn params(&self) -> &OptParams {
        &self.params
    }
    fn init(&mut self, v: &Tok) {
        self.rec.ev(obj! {"e": s("init"), "tok": J::Int(v.0)});
    }
    fn error(&self, v: &Tok) -> D {
        self.err[v.0 as usize] as D
    }
    fn step(&mut self, v: Tok, idx: usize) -> OptResult<Tok> {
        self.rec.ev(obj! {"e": s("step"), "idx": int(idx), "tok": J::Int(v.0)});
        self.steps += 1;
        if self.steps == self.fail.0 {
            return Err(match self.fail.1.as_str() {
                "invalid" => OptError::InvalidSystem,
                "failed" => OptError::FailedToStep,
                _ => OptError::MaxIterations(Tok(900)),
            });
        }
        if v.0 as usize + 1 >= self.err.len() {
            panic!("stepped beyond the script");
        }
        Ok(Tok(v.0 + 1))
    }
}
pub fn scripted(scn: &J, rec: &Rec) {
    let mut o = Scripted { params: OptParams::default(), err: vec![], fail: (0, String::new()), steps: 0, rec: rec.clone() };
    for run in scn.get("runs").arr() {
        o.params = params(run.get("p"));
        o.err = run.get("err").fv();
        o.fail = (run.get("fail").get("at").us(), run.get("fail").get("why").str().to_string());
        o.steps = 0;
        let (res, tok) = match o.optimize(Tok(0)) {
            Ok(t) => ("ok", t.0),
            Err(OptError::MaxIterations(t)) => ("max", t.0),
            Err(OptError::InvalidSystem) => ("invalid", -1),
            Err(OptError::FailedToStep) => ("failed", -1),
        };
        rec.ev(obj! {"e": s("end"), "res": s(res), "tok": J::Int(tok)});
    }
}

// ------------------------- real ------------------------- //
/// an optimizer on graphs whose public parameters and observers can be reached
pub trait Real: GraphOptimizer + Optimizer<Input = Values> {
    fn base(&mut self) -> &mut OptParams;
    fn watch(&mut self, o: Watch);
    /// damp with the identity instead of the diagonal
    fn identity_damping(&mut self) {}
}
impl<S: factrs::linear::LinearSolver> Real for GaussNewton<S> {
    fn base(&mut self) -> &mut OptParams {
        &mut self.params
    }
    fn watch(&mut self, o: Watch) {
        self.observers.add(o)
    }
}
impl<S: factrs::linear::LinearSolver> Real for LevenMarquardt<S> {
    fn base(&mut self) -> &mut OptParams {
        &mut self.params_base
    }
    fn watch(&mut self, o: Watch) {
        self.observers.add(o)
    }
    fn identity_damping(&mut self) {
        self.params_leven.diagonal_damping = false;
    }
}
#[macro_export]
macro_rules! with_opt {
    ($opt:expr, $solver:expr, $O:ident => $e:expr) => {
        match ($opt, $solver) {
            ("gn", "chol") => { type $O = GaussNewton<CholeskySolver>; $e }
            ("gn", "qr") => { type $O = GaussNewton<QRSolver>; $e }
            ("gn", "lu") => { type $O = GaussNewton<LUSolver>; $e }
            ("lm", "chol") => { type $O = LevenMarquardt<CholeskySolver>; $e }
            ("lm", "qr") => { type $O = LevenMarquardt<QRSolver>; $e }
            ("lm", "lu") => { type $O = LevenMarquardt<LUSolver>; $e }
            (a, b) => panic!("HARNESS: optimizer {a} {b}"),
        }
    };
}
/// an observer that records what it is told
pub struct Watch {
    pub no: usize,
    pub vars: J,
    pub graph: Graph,
    pub rec: Rec,
}
impl OptObserver for Watch {
    type Input = Values;
    fn on_step(&self, v: &Values, time: f64) {
        self.rec.ev(obj! {"e": s("obs"), "no": int(self.no), "time": r(time), "err": r(self.graph.error(v) as f64), "vals": read_all(v, &self.vars)});
    }
}
pub fn result_json(e: &str, res: OptResult<Values>, vars: &J) -> J {
    let (name, v) = match res {
        Ok(v) => ("ok", Some(v)),
        Err(OptError::MaxIterations(v)) => ("max", Some(v)),
        Err(OptError::InvalidSystem) => ("invalid", None),
        Err(OptError::FailedToStep) => ("failed", None),
    };
    obj! {"e": s(e), "res": s(name), "len": int(v.as_ref().map_or(0, |v| v.len())), "vals": v.map_or(J::Arr(vec![]), |v| read_all(&v, vars))}
}
fn setup<O: Real>(scn: &J, rec: &Rec) -> (O, Values) {
    let vars = scn.get("vars");
    let mut o = O::new(graph(scn.get("facs")));
    *o.base() = params(scn.get("p"));
    for no in 1..=scn.get("nobs").us() {
        o.watch(Watch { no, vars: vars.clone(), graph: graph(scn.get("facs")), rec: rec.clone() });
    }
    (o, values(vars))
}
pub fn observed(scn: &J, rec: &Rec) {
    let vars = scn.get("vars");
    with_opt!(scn.get("opt").str(), scn.get("solver").str(), O => {
        let (mut o, v) = setup::<O>(scn, rec);
        rec.ev(obj! {"e": s("begin"), "err": r(graph(scn.get("facs")).error(&v) as f64), "gerr": r(o.graph().error(&v) as f64), "oerr": r(o.error(&v) as f64),
                     "nfac": int(o.graph().len()), "vals": read_all(&v, vars)});
        let res = o.optimize(v);
        rec.ev(result_json("end", res, vars));
    })
}
pub fn direct(scn: &J, rec: &Rec) {
    let vars = scn.get("vars");
    with_opt!(scn.get("opt").str(), scn.get("solver").str(), O => {
        let (mut o, mut v) = setup::<O>(scn, rec);
        o.init(&v);
        for i in scn.get("idx").arr() {
            let res = o.step(v, i.us());
            match res {
                Ok(x) => {
                    rec.ev(obj! {"e": s("stepped"), "res": s("ok"), "vals": read_all(&x, vars)});
                    v = x;
                }
                other => {
                    rec.ev(result_json("stepped", other, vars));
                    break;
                }
            }
        }
    })
}

// ------------------------- single steps ------------------------- //
/// a user's dense solver
#[derive(Default)]
pub struct DenseSolver;
impl LinearSolver for DenseSolver {
    fn solve_symmetric(&mut self, a: faer::sparse::SparseColMatRef<usize, D>, b: faer::MatRef<D>) -> faer::Mat<D> {
        let d = a.to_dense();
        let m = factrs::linalg::MatrixX::from_fn(d.nrows(), d.ncols(), |i, j| d.read(i, j));
        let v = factrs::linalg::MatrixX::from_fn(b.nrows(), b.ncols(), |i, j| b.read(i, j));
        let x = m.lu().solve(&v).expect("dense solve");
        faer::Mat::from_fn(x.nrows(), x.ncols(), |i, j| x[(i, j)])
    }
    fn solve_lst_sq(&mut self, a: faer::sparse::SparseColMatRef<usize, D>, b: faer::MatRef<D>) -> faer::Mat<D> {
        let d = a.to_dense();
        let m = factrs::linalg::MatrixX::from_fn(d.nrows(), d.ncols(), |i, j| d.read(i, j));
        let v = factrs::linalg::MatrixX::from_fn(b.nrows(), b.ncols(), |i, j| b.read(i, j));
        let x = (m.transpose() * &m).lu().solve(&(m.transpose() * v)).expect("dense solve");
        faer::Mat::from_fn(x.nrows(), x.ncols(), |i, j| x[(i, j)])
    }
}
/// every factor of the scenario linearized on its own
pub fn lin_facs(scn: &J, v: &Values) -> J {
    let all: Vec<Key> = scn.get("vars").arr().iter().map(|x| key(x.get("key"))).collect();
    J::Arr(scn.get("facs").arr().iter().map(|f| {
        let lin = factor(f).linearize(v);
        obj! {"keys": J::Arr(lin.keys.iter().map(|k| int(key_no(&all, k))).collect()),
              "blocks": J::Arr((0..lin.keys.len()).map(|i| crate::jm!(lin.a.get_block(i))).collect()), "b": jv(lin.b.iter())}
    }).collect())
}
pub fn gn_steps(scn: &J, rec: &Rec) {
    fn go<O: Real>(scn: &J, rec: &Rec) {
        let vars = scn.get("vars");
        let mut v = values(vars);
        rec.ev(obj! {"e": s("start"), "start": read_all(&v, vars), "len": int(v.len())});
        let mut o = O::new(graph(scn.get("facs")));
        let mix = scn.get("mix").bool();
        if mix {
            o.init(&rebuilt(&v, vars));
        } else {
            o.init(&v);
        }
        for i in 1..=scn.get("steps").us() {
            if mix && i > 1 {
                v = rebuilt(&v, vars);
            }
            let (before, fs) = (read_all(&v, vars), lin_facs(scn, &v));
            match o.step(v, i) {
                Ok(x) => {
                    rec.ev(obj! {"e": s("gn"), "fs": fs, "before": before, "res": s("ok"), "len": int(x.len()), "vals": read_all(&x, vars)});
                    v = x
                }
                Err(_) => {
                    rec.ev(obj! {"e": s("gn"), "fs": fs, "before": before, "res": s("err"), "len": int(0), "vals": J::Arr(vec![])});
                    return;
                }
            }
        }
        rec.ev(obj! {"e": s("final"), "fs": lin_facs(scn, &v)});
    }
    match scn.get("solver").str() {
        "user" => go::<GaussNewton<DenseSolver>>(scn, rec),
        sv => with_opt!("gn", sv, O => go::<O>(scn, rec)),
    }
}

// ------------------------- Levenberg-Marquardt with a spying solver ------------------------- //
thread_local! {
    static SPY: std::cell::RefCell<Option<Spy>> = const { std::cell::RefCell::new(None) };
}
struct Spy {
    rec: Rec,
    base: String,
    modes: std::collections::VecDeque<String>,
}
/// hands the system to a real solver, records it, and returns the answer changed as the script says
#[derive(Default)]
pub struct SpySolver {
    chol: CholeskySolver,
    qr: QRSolver,
    lu: LUSolver,
}
fn dense(m: faer::MatRef<D>) -> J {
    J::Arr((0..m.nrows()).map(|i| J::Arr((0..m.ncols()).map(|j| r(m.read(i, j) as f64)).collect())).collect())
}
impl SpySolver {
    fn answer(&self, a: &faer::Mat<D>, b: &faer::Mat<D>, mut x: faer::Mat<D>) -> faer::Mat<D> {
        SPY.with(|s_| {
            let mut spy = s_.borrow_mut();
            let spy = spy.as_mut().expect("HARNESS: no spy");
            let mode = spy.modes.pop_front().unwrap_or_else(|| "true".into());
            let k: f64 = match mode.as_str() {
                "true" => 1.0,
                "zero" => 0.0,
                "neg" => -1.0,
                "nan" => f64::NAN,
                "inf" => f64::INFINITY,
                "big" => 10.0,
                "double" => 2.5,
                "half" => 0.5,
                "tiny" => 1e-3,
                o => panic!("HARNESS: mode {o}"),
            };
            if k != 1.0 {
                for i in 0..x.nrows() {
                    let v = if k == 0.0 { 0.0 } else { x.read(i, 0) * k as D };
                    x.write(i, 0, v);
                }
            }
            let col = |m: &faer::Mat<D>| J::Arr((0..m.nrows()).map(|i| r(m.read(i, 0) as f64)).collect());
            spy.rec.ev(obj! {"e": s("try"), "mode": s(&mode), "a": dense(a.as_ref()), "b": col(b), "x": col(&x)});
        });
        x
    }
    fn base() -> String {
        SPY.with(|s_| s_.borrow().as_ref().expect("HARNESS: no spy").base.clone())
    }
}
impl LinearSolver for SpySolver {
    fn solve_symmetric(&mut self, a: faer::sparse::SparseColMatRef<usize, D>, b: faer::MatRef<D>) -> faer::Mat<D> {
        let x = match Self::base().as_str() {
            "chol" => self.chol.solve_symmetric(a, b),
            "qr" => self.qr.solve_symmetric(a, b),
            _ => self.lu.solve_symmetric(a, b),
        };
        self.answer(&a.to_dense(), &b.to_owned(), x)
    }
    fn solve_lst_sq(&mut self, a: faer::sparse::SparseColMatRef<usize, D>, b: faer::MatRef<D>) -> faer::Mat<D> {
        let x = match Self::base().as_str() {
            "chol" => self.chol.solve_lst_sq(a, b),
            "qr" => self.qr.solve_lst_sq(a, b),
            _ => self.lu.solve_lst_sq(a, b),
        };
        let d = a.to_dense();
        let (ata, atb) = (d.transpose() * &d, d.transpose() * b);
        self.answer(&ata, &atb, x)
    }
}
pub fn lm_steps(scn: &J, rec: &Rec) {
    let vars = scn.get("vars");
    SPY.with(|s_| *s_.borrow_mut() = Some(Spy {
        rec: rec.clone(),
        base: scn.get("base").str().into(),
        modes: scn.get("modes").arr().iter().map(|m| m.str().to_string()).collect(),
    }));
    let mut o = LevenMarquardt::<SpySolver>::new(graph(scn.get("facs")));
    let lp = scn.get("leven");
    o.params_leven.lambda_min = lp.get("min").f() as D;
    o.params_leven.lambda_max = lp.get("max").f() as D;
    o.params_leven.lambda_factor = lp.get("fac").f() as D;
    o.params_leven.diagonal_damping = lp.get("diag").bool();
    for no in 1..=scn.get("nobs").us() {
        o.watch(Watch { no, vars: vars.clone(), graph: graph(scn.get("facs")), rec: rec.clone() });
    }
    let mut v = values(vars);
    let mut idx = 1;
    let mix = scn.get("mix").bool();
    for n in scn.get("inits").arr() {
        if mix {
            o.init(&rebuilt(&v, vars));
        } else {
            o.init(&v);
        }
        rec.ev(obj! {"e": s("init")});
        for _ in 0..n.us() {
            if mix && idx > 1 {
                v = rebuilt(&v, vars);
            }
            let before = read_all(&v, vars);
            rec.ev(obj! {"e": s("begin"), "vals": before.clone(), "fs": lin_facs(scn, &v)});
            match o.step(v, idx) {
                Ok(x) => {
                    rec.ev(obj! {"e": s("stepped"), "res": s("ok"), "before": before, "vals": read_all(&x, vars)});
                    v = x;
                }
                Err(e) => {
                    let name = match e { OptError::FailedToStep => "failed", OptError::InvalidSystem => "invalid", _ => "max" };
                    rec.ev(obj! {"e": s("stepped"), "res": s(name), "before": before, "vals": J::Arr(vec![])});
                    return;
                }
            }
            idx += 1;
        }
    }
}

// ------------------------- the same problem posed in many ways ------------------------- //
fn pick(j: &J, order: &J) -> J {
    J::Arr(order.arr().iter().map(|i| j.at(i.us() - 1).clone()).collect())
}
/// one optimizer instance: its own names for the keys and its own order of factors; `run` may be called again and again
struct Inst<O: Real> {
    o: O,
    rec: Rec,
}
trait AnyInst {
    fn run(&mut self, v: Values, p: OptParams) -> (Vec<J>, Result<OptResult<Values>, String>);
}
impl<O: Real> AnyInst for Inst<O> {
    fn run(&mut self, v: Values, p: OptParams) -> (Vec<J>, Result<OptResult<Values>, String>) {
        *self.o.base() = p;
        self.rec.take();
        let res = crate::guarded(|| self.o.optimize(v));
        (self.rec.take(), res)
    }
}
fn instance(j: &J, vars: &J, facs: &J) -> Box<dyn AnyInst> {
    fn go<O: Real + 'static>(vars: &J, facs: &J, identity: bool) -> Box<dyn AnyInst> {
        let rec = Rec::default();
        let mut o = O::new(graph(facs));
        if identity {
            o.identity_damping();
        }
        o.watch(Watch { no: 1, vars: vars.clone(), graph: graph(facs), rec: rec.clone() });
        Box::new(Inst { o, rec })
    }
    let (opt, identity) = match j.get("opt").str() {
        "lmi" => ("lm", true),
        x => (x, false),
    };
    with_opt!(opt, j.get("solver").str(), O => go::<O>(vars, facs, identity))
}
pub fn posed(scn: &J, rec: &Rec) {
    // an instance renames the keys: variable i is called names[i]
    let insts = scn.get("insts").arr();
    let rename = |no: usize, j: &J| -> J {
        let (vars, names) = (scn.get("vars").arr(), insts[no].get("names"));
        let to = |k: &J| vars.iter().position(|v| key(v.get("key")) == key(k)).map(|i| names.at(i).clone()).expect("HARNESS: key");
        J::Arr(j.arr().iter().map(|x| match x.opt("key") {
            Some(k) => x.with("key", to(k)),
            None => x.with("keys", J::Arr(x.get("keys").arr().iter().map(to).collect())),
        }).collect())
    };
    let mut live: Vec<Option<Box<dyn AnyInst>>> = insts.iter().map(|_| None).collect();
    for run in scn.get("runs").arr() {
        let no = run.get("inst").us() - 1;
        let vars = rename(no, scn.get("vars"));
        if live[no].is_none() {
            live[no] = Some(instance(&insts[no], &vars, &pick(&rename(no, scn.get("facs")), insts[no].get("facs"))));
        }
        let start = rename(no, scn.get("starts").at(run.get("start").us() - 1));
        let mut v0 = values(&pick(&start, run.get("order")));
        let full = v0.len() == vars.arr().len();
        let (extra, wide) = (run.get("extra").us(), run.get("wide").bool());
        bystanders(&mut v0, extra, wide);
        let first = if full { lin_facs(&obj! {"vars": vars.clone(), "facs": rename(no, scn.get("facs"))}, &v0) } else { J::Arr(vec![]) };
        let e0 = if full { r(graph(scn.get("facs")).error(&values(scn.get("starts").at(run.get("start").us() - 1))) as f64) } else { r(0.0) };
        let (obs, res) = live[no].as_mut().unwrap().run(v0, params(run.get("p")));
        let its = J::Arr(obs.iter().take(12).map(|o| obj! {"err": o.get("err").clone(), "vals": o.get("vals").clone()}).collect());
        let ev = obj! {"e": s("ran"), "steps": int(obs.len()), "err0": e0, "fs": first, "its": its};
        rec.ev(match res {
            Err(_) => ev.with("res", s("panic")).with("vals", J::Arr(vec![])).with("ffs", J::Arr(vec![])).with("same", J::Bool(true)),
            Ok(res) => {
                let lin = |v: &Values| lin_facs(&obj! {"vars": vars.clone(), "facs": rename(no, scn.get("facs"))}, v);
                let end = match &res {
                    _ if !full => J::Arr(vec![]),
                    Ok(v) | Err(OptError::MaxIterations(v)) => lin(v),
                    // a failed step: the values it could not improve
                    _ => lin(&match obs.last() {
                        None => values(&start),
                        Some(o) => values(&J::Arr(vars.arr().iter().enumerate().map(|(i, x)| x.with("raw", o.get("vals").at(i).clone())).collect())),
                    }),
                };
                let same = match &res {
                    Ok(v) | Err(OptError::MaxIterations(v)) => v.len() == vars.arr().len() + extra && untouched(v, extra, wide),
                    _ => true,
                };
                let j = result_json("", res, &vars);
                ev.with("same", J::Bool(same)).with("res", j.get("res").clone()).with("vals", j.get("vals").clone()).with("ffs", end)
            }
        });
    }
}

// ------------------------- from start to end ------------------------- //
pub fn recover(scn: &J, rec: &Rec) {
    let vars = scn.get("vars");
    let make = || -> (Graph, Values) {
        if scn.get("file").opt("lines").is_some() {
            return crate::g2o::loaded(scn.get("file"));
        }
        let mut g = graph(scn.get("facs"));
        for i in scn.get("imus").arr() {
            g.add_factor(crate::imu::factor(i));
        }
        (g, values(vars))
    };
    fn go<O: Real>(make: impl Fn() -> (Graph, Values), scn: &J, rec: &Rec, identity: bool) {
        let vars = scn.get("vars");
        let ((g, v), (g2, _), (g3, _)) = (make(), make(), make());
        let err0 = g2.error(&v) as f64;
        let mut o = O::new(g);
        if scn.get("p").get("own").bool() {
            *o.base() = params(scn.get("p"));
        }
        if identity {
            o.identity_damping();
        }
        let seen = Rec::default();
        o.watch(Watch { no: 1, vars: vars.clone(), graph: g2, rec: seen.clone() });
        let start = read_all(&v, vars);
        let res = o.optimize(v);
        let obs = seen.take();
        let errs = std::iter::once(r(err0)).chain(obs.iter().map(|x| x.get("err").clone())).collect();
        let fin = match &res {
            Ok(v) | Err(OptError::MaxIterations(v)) => g3.error(v) as f64,
            _ => f64::NAN,
        };
        let last = obs.last().map_or(start, |x| x.get("vals").clone());
        rec.ev(result_json("end", res, vars).with("errs", J::Arr(errs)).with("fin", r(fin)).with("last", last));
    }
    let (opt, identity) = match scn.get("opt").str() {
        "lmi" => ("lm", true),
        x => (x, false),
    };
    with_opt!(opt, scn.get("solver").str(), O => go::<O>(make, scn, rec, identity))
}
