//! Drivers for noise models, kernels, factors, graphs and residuals (C12-C16).
use crate::{guarded, jm, json::*, kinds::*, obj, probs::*, with_kernel, Rec};
use factrs::{
    containers::{Factor, FactorBuilder, Graph, Idx, Key, ValuesOrder},
    fac,
    linalg::{DiffResult, MatrixBlock, MatrixX, VectorX},
    linear::{LinearFactor, LinearGraph, LinearValues},
    noise::{GaussianNoise, NoiseModel, UnitNoise},
    residuals::Residual,
    robust::*,
};

pub fn noise(scn: &J, rec: &Rec) {
    macro_rules! diag {
        ({$($n:literal : [$($i:literal),*]);*} {$($m:literal),*}) => {
            match scn.get("n").us() {
                $($n => {
                    let j = scn.get("noise");
                    let v: Vec<f64> = j.opt("v").map(|x| x.fv()).unwrap_or_default();
                    let v: Vec<D> = v.iter().map(|x| *x as D).collect();
                    match j.get("n").str() {
                        "identity" => whiten(scn, rec, GaussianNoise::<$n>::identity()),
                        "unit" => whiten(scn, rec, UnitNoise::<$n>),
                        "diag_sigmas" => whiten(scn, rec, GaussianNoise::<$n>::from_diag_sigmas($(v[$i]),*)),
                        "diag_covs" => whiten(scn, rec, GaussianNoise::<$n>::from_diag_covs($(v[$i]),*)),
                        _ => whiten(scn, rec, gaussian::<$n>(j)),
                    }
                })*
                $($m => match scn.get("noise").get("n").str() {
                    "identity" => whiten(scn, rec, GaussianNoise::<$m>::identity()),
                    "unit" => whiten(scn, rec, UnitNoise::<$m>),
                    _ => whiten(scn, rec, gaussian::<$m>(scn.get("noise"))),
                },)*
                n => panic!("HARNESS: noise dimension {n}"),
            }
        };
    }
    diag!({1: [0]; 2: [0, 1]; 3: [0, 1, 2]; 4: [0, 1, 2, 3]; 5: [0, 1, 2, 3, 4]; 6: [0, 1, 2, 3, 4, 5]} {7, 9, 12, 15, 20})
}
fn whiten<N: NoiseModel>(scn: &J, rec: &Rec, n: N) {
    let d = n.dim();
    let w = n.whiten_mat(MatrixX::identity(d, d));
    let vs = scn.get("vecs").fm().iter().map(|v| jv(n.whiten_vec(vx(v)).iter())).collect();
    let ms = scn.get("mats").arr().iter().map(|m| jm!(n.whiten_mat(mx(&m.fm())))).collect();
    rec.ev(obj! {"e": s("noise"), "dim": int(d), "w": jm!(w), "vecs": J::Arr(vs), "mats": J::Arr(ms)});
}

pub fn kernel(scn: &J, rec: &Rec) {
    let d2: Vec<D> = scn.get("d2").fv().iter().map(|x| *x as D).collect();
    with_kernel!(scn.get("kernel"), none => panic!("HARNESS: no kernel"), k => {
        let loss: Vec<f64> = d2.iter().map(|x| k.loss(*x) as f64).collect();
        let weight: Vec<f64> = d2.iter().map(|x| k.weight(*x) as f64).collect();
        rec.ev(obj! {"e": s("kernel"), "loss": rv(&loss), "weight": rv(&weight)});
    })
}

/// what the parts of a factor say, each taken on its own
fn parts(scn: &J, rec: &Rec) {
    let f = scn.get("f");
    let v = values(scn.get("vars"));
    let keys: Vec<Key> = f.get("keys").arr().iter().map(key).collect();
    let res = residual(f.get("res"));
    let r0 = res.residual(&v, &keys);
    let DiffResult { value: r, diff: jac } = res.residual_jacobian(&v, &keys);
    let w = whitening(f.get("noise"), r.len());
    let d2 = (&w * &r).norm_squared();
    let (rho, wt) = with_kernel!(f.get("kernel"), none => (d2 / 2.0, 1.0), k => (k.loss(d2), k.weight(d2)));
    rec.ev(obj! {"e": s("parts"), "r0": jv(r0.iter()), "r": jv(r.iter()), "jac": jm!(jac), "din": int(res.dim_in()), "dout": int(res.dim_out()),
                 "w": jm!(w), "rho": crate::json::r(rho as f64), "wt": crate::json::r(wt as f64)});
}
fn record(scn: &J, rec: &Rec, fac: &Factor) {
    let v = values(scn.get("vars"));
    let keys: Vec<Key> = scn.get("f").get("keys").arr().iter().map(key).collect();
    let err = fac.error(&v);
    let lin = fac.linearize(&v);
    let blocks: Vec<J> = (0..lin.keys.len()).map(|i| jm!(lin.a.get_block(i))).collect();
    rec.ev(obj! {"e": s("factor"), "err": r(err as f64), "dout": int(fac.dim_out()),
                 "keys": J::Arr(fac.keys().iter().map(|k| int(key_no(&keys, k))).collect()),
                 "lkeys": J::Arr(lin.keys.iter().map(|k| int(key_no(&keys, k))).collect()),
                 "a": jm!(lin.a.mat()), "blocks": J::Arr(blocks), "b": jv(lin.b.iter())});
}
pub fn factor_case(scn: &J, rec: &Rec) {
    parts(scn, rec);
    record(scn, rec, &factor(scn.get("f")));
}

/// the forms of fac!, with typed symbols
mod syms {
    use crate::vars::*;
    use factrs::assign_symbols;
    assign_symbols!(A: VectorVar2; B: VectorVar1; C: VectorVar3; Q: SO2; P: SE2; V: VectorVar1;
                            E: SE3; R: SO3; G: VectorVar6);
}
#[cfg(feature = "nofac")]
pub fn fac_forms(_: &J, _: &Rec) {
    panic!("HARNESS: built without fac! forms")
}
#[cfg(not(feature = "nofac"))]
pub fn fac_forms(scn: &J, rec: &Rec) {
    use syms::*;
    parts(scn, rec);
    let f = scn.get("f");
    let (rj, nj) = (f.get("res"), f.get("noise"));
    let k: Vec<u64> = f.get("keys").arr().iter().map(|x| x.at(1).us() as u64).collect();
    let d = || comb_data(rj);
    let kc = f.get("kernel").opt("c").map(|x| x.f() as D);
    macro_rules! hub { () => { Huber::new(kc.unwrap()) }; }
    // $r: residual expression, keys in every form, dimension of the noise
    macro_rules! forms {
        ($r:expr, $n:literal, [$($key:expr),+]) => {
            match scn.get("form").str() {
                "arr" => fac![$r, [$($key),+]],
                "arr,n" => fac![$r, [$($key),+], gaussian::<$n>(nj)],
                "arr,n,k" => fac![$r, [$($key),+], gaussian::<$n>(nj), hub!()],
                "tup" => fac![$r, ($($key,)+)],
                "tup,n" => fac![$r, ($($key,)+), gaussian::<$n>(nj)],
                "tup,n,k" => fac![$r, ($($key,)+), gaussian::<$n>(nj), hub!()],
                "tup,n,k,trailing" => fac![$r, ($($key,)+), gaussian::<$n>(nj), hub!(),],
                o => panic!("HARNESS: form {o}"),
            }
        };
    }
    let made = match rj.get("sig").str() {
        "V2" => {
            let res = || R1V2::<2>(d());
            let one = A(k[0]);
            let many = [A(k[0] + 1), A(k[0])];
            let nn = || gaussian::<2>(nj);
            match scn.get("form").str() {
                "one" => fac![res(), A(k[0])],
                "one,n" => fac![res(), A(k[0]), nn()],
                "one,n,k" => fac![res(), A(k[0]), nn(), hub!()],
                "var" => fac![res(), one],
                "var,n" => fac![res(), one, nn()],
                "var,n,k" => fac![res(), one, nn(), hub!()],
                "index" => fac![res(), many[1]],
                "index,n" => fac![res(), many[1], nn()],
                "index,n,k" => fac![res(), many[1], nn(), hub!()],
                "path,n,k" => fac![res(), syms::A(k[0]), nn(), hub!()],
                "unit" => fac![res(), A(k[0]), UnitNoise::<2>],
                "unit,k" => fac![res(), A(k[0]), UnitNoise::<2>, hub!()],
                _ => forms!(res(), 2, [A(k[0])]),
            }
        }
        "V2,V1" => forms!(R2V2V1::<3>(d()), 3, [A(k[0]), B(k[1])]),
        "V2,V1,V3" => forms!(R3V2V1V3::<2>(d()), 2, [A(k[0]), B(k[1]), C(k[2])]),
        "SO2,V3,SE2,V1" => forms!(R4::<3>(d()), 3, [Q(k[0]), C(k[1]), P(k[2]), V(k[3])]),
        "SO2,SE2,SO3,SE3,V2" => forms!(R5::<2>(d()), 2, [Q(k[0]), P(k[1]), R(k[2]), E(k[3]), A(k[4])]),
        "V6,SO3,V1,SE2,SO2,V2" => forms!(R6::<4>(d()), 4, [G(k[0]), R(k[1]), B(k[2]), P(k[3]), Q(k[4]), A(k[5])]),
        o => panic!("HARNESS: form signature {o}"),
    };
    record(scn, rec, &made);
    // the builder, with typed keys
    macro_rules! typed {
        ($b:expr, $n:literal) => {{
            let b = $b;
            let b = match nj.get("n").str() { "none" => b, "unit" => b.noise(UnitNoise::<$n>), _ => b.noise(gaussian::<$n>(nj)) };
            if kc.is_some() { b.robust(hub!()).build() } else { b.build() }
        }};
    }
    let typed = match rj.get("sig").str() {
        "V2" => typed!(FactorBuilder::new1(R1V2::<2>(d()), A(k[0])), 2),
        "V2,V1" => typed!(FactorBuilder::new2(R2V2V1::<3>(d()), A(k[0]), B(k[1])), 3),
        "V2,V1,V3" => typed!(FactorBuilder::new3(R3V2V1V3::<2>(d()), A(k[0]), B(k[1]), C(k[2])), 2),
        "SO2,V3,SE2,V1" => typed!(FactorBuilder::new4(R4::<3>(d()), Q(k[0]), C(k[1]), P(k[2]), V(k[3])), 3),
        "SO2,SE2,SO3,SE3,V2" => typed!(FactorBuilder::new5(R5::<2>(d()), Q(k[0]), P(k[1]), R(k[2]), E(k[3]), A(k[4])), 2),
        _ => typed!(FactorBuilder::new6(R6::<4>(d()), G(k[0]), R(k[1]), B(k[2]), P(k[3]), Q(k[4]), A(k[5])), 4),
    };
    record(scn, rec, &typed);
}

fn outcome<T>(x: Result<T, String>) -> (J, Option<T>) {
    match x {
        Ok(v) => (s("ok"), Some(v)),
        Err(m) if m.starts_with("HARNESS") => panic!("{m}"),
        Err(_) => (s("panic"), None),
    }
}
fn order_json(o: &ValuesOrder, keys: &[Key]) -> J {
    J::Arr(keys.iter().map(|k| match o.get(*k) {
        Some(Idx { idx, dim }) => J::Arr(vec![int(*idx), int(*dim)]),
        None => J::Arr(vec![]),
    }).collect())
}

/// a graph against its factors
pub fn graph_case(scn: &J, rec: &Rec) {
    let vars = scn.get("vars");
    let all: Vec<Key> = vars.arr().iter().map(|x| key(x.get("key"))).collect();
    let full = values(vars);
    for f in scn.get("facs").arr() {
        let fac = factor(f);
        let lin = fac.linearize(&full);
        rec.ev(obj! {"e": s("fac"), "err": r(fac.error(&full) as f64),
                     "keys": J::Arr(fac.keys().iter().map(|k| int(key_no(&all, k))).collect()),
                     "blocks": J::Arr((0..lin.keys.len()).map(|i| jm!(lin.a.get_block(i))).collect()), "b": jv(lin.b.iter())});
    }
    // the graph, possibly with a variable missing from the values or the ordering
    let drop = scn.get("drop").us();
    let given: Vec<J> = vars.arr().iter().enumerate().filter(|(i, _)| i + 1 != drop).map(|(_, x)| x.clone()).collect();
    let v = values(&J::Arr(given));
    let mut g = if scn.get("cap").bool() { Graph::with_capacity(1) } else { Graph::new() };
    let mut counts = vec![J::Arr(vec![int(g.len()), J::Bool(g.is_empty())])];
    for f in scn.get("facs").arr() {
        g.add_factor(factor(f));
        counts.push(J::Arr(vec![int(g.len()), J::Bool(g.is_empty())]));
    }
    rec.ev(obj! {"e": s("counts"), "n": J::Arr(counts)});
    let (o, err) = outcome(guarded(|| g.error(&v)));
    rec.ev(obj! {"e": s("error"), "out": o, "err": r(err.unwrap_or(0.0) as f64)});
    let order = if scn.get("order").arr().is_empty() { ValuesOrder::from_values(&v) } else { order_of(scn.get("order"), vars) };
    let oj = order_json(&order, &all);
    let (o1, go) = outcome(guarded(|| g.sparsity_pattern(order.clone())));
    let (o2, lin) = outcome(guarded(|| g.linearize(&v)));
    let (rows, cols) = go.as_ref().map_or((0, 0), |x| (x.sparsity_pattern.nrows(), x.sparsity_pattern.ncols()));
    let mut ev = vec![("e".to_string(), s("system")), ("pat".into(), o1), ("lin".into(), o2), ("order".into(), oj), ("rows".into(), int(rows)), ("cols".into(), int(cols))];
    if let (Some(go), Some(lin)) = (go, lin) {
        let zero = LinearValues::zero_from_order(order.clone());
        let dx = LinearValues::from_order_and_vector(order.clone(), vx(&scn.get("dx").fv()));
        let DiffResult { value, diff } = lin.residual_jacobian(&go);
        let dense = diff.to_dense();
        ev.push(("b".into(), J::Arr((0..value.nrows()).map(|i| r(value.read(i, 0) as f64)).collect())));
        ev.push(("a".into(), J::Arr((0..dense.nrows()).map(|i| J::Arr((0..dense.ncols()).map(|j| r(dense.read(i, j) as f64)).collect())).collect())));
        ev.push(("err0".into(), r(lin.error(&zero) as f64)));
        ev.push(("errdx".into(), r(lin.error(&dx) as f64)));
        // pattern of a linear graph equals that of the nonlinear one
        let gl = lin.sparsity_pattern(order);
        let DiffResult { diff: d2, .. } = lin.residual_jacobian(&gl);
        let d2 = d2.to_dense();
        ev.push(("a2".into(), J::Arr((0..d2.nrows()).map(|i| J::Arr((0..d2.ncols()).map(|j| r(d2.read(i, j) as f64)).collect())).collect())));
    }
    rec.ev(J::Obj(ev));
}

/// a linear graph given directly
pub fn linear_graph(scn: &J, rec: &Rec) {
    let vars = scn.get("vars");
    let all: Vec<Key> = vars.arr().iter().map(|x| key(x.get("key"))).collect();
    let mk = |f: &J| {
        let mats: Vec<Vec<Vec<f64>>> = f.get("blocks").arr().iter().map(|m| m.fm()).collect();
        let b = vx(&f.get("b").fv());
        let mut idx = vec![];
        let mut full: Vec<Vec<f64>> = vec![vec![]; b.len()];
        for m in &mats {
            idx.push(full[0].len());
            for (row, add) in full.iter_mut().zip(m) {
                row.extend(add);
            }
        }
        LinearFactor::new(f.get("keys").arr().iter().map(|i| all[i.us() - 1]).collect(), MatrixBlock::new(mx(&full), idx), b)
    };
    let order = order_of(scn.get("order"), vars);
    let zero = LinearValues::zero_from_order(order.clone());
    let dx = LinearValues::from_order_and_vector(order.clone(), vx(&scn.get("dx").fv()));
    for f in scn.get("facs").arr() {
        let lf = mk(f);
        let (o, e) = outcome(guarded(|| lf.error(&dx)));
        rec.ev(obj! {"e": s("lfac"), "out": o, "dout": int(lf.dim_out()), "err": r(e.unwrap_or(0.0) as f64)});
    }
    let g = if scn.get("cap").bool() {
        LinearGraph::from_vec(scn.get("facs").arr().iter().map(mk).collect())
    } else {
        let mut g = LinearGraph::new();
        scn.get("facs").arr().iter().for_each(|f| g.add_factor(mk(f)));
        g
    };
    let (o1, go) = outcome(guarded(|| g.sparsity_pattern(order.clone())));
    let (o2, e0) = outcome(guarded(|| g.error(&zero)));
    let (_, ed) = outcome(guarded(|| g.error(&dx)));
    let mut ev = vec![("e".to_string(), s("system")), ("pat".into(), o1), ("lin".into(), o2), ("order".into(), order_json(&order, &all)),
                      ("err0".into(), r(e0.unwrap_or(0.0) as f64)), ("errdx".into(), r(ed.unwrap_or(0.0) as f64))];
    if let Some(go) = go {
        let DiffResult { value, diff } = g.residual_jacobian(&go);
        let dense = diff.to_dense();
        ev.push(("b".into(), J::Arr((0..value.nrows()).map(|i| r(value.read(i, 0) as f64)).collect())));
        ev.push(("a".into(), J::Arr((0..dense.nrows()).map(|i| J::Arr((0..dense.ncols()).map(|j| r(dense.read(i, j) as f64)).collect())).collect())));
    }
    rec.ev(J::Obj(ev));
}

/// one residual evaluated through Values and keys
pub fn residual_case(scn: &J, rec: &Rec) {
    let v = values(scn.get("vars"));
    let keys: Vec<Key> = scn.get("keys").arr().iter().map(key).collect();
    let res: Box<dyn Residual> = residual(scn.get("res"));
    let (o1, val) = outcome(guarded(|| res.residual(&v, &keys)));
    let (o2, jac) = outcome(guarded(|| res.residual_jacobian(&v, &keys)));
    let (jvv, jd) = jac.map_or((J::Arr(vec![]), J::Arr(vec![])), jac_of);
    let val = val.unwrap_or_else(|| VectorX::zeros(0));
    rec.ev(obj! {"e": s("residual"), "din": int(res.dim_in()), "dout": int(res.dim_out()), "o1": o1, "o2": o2,
                 "val": jv(val.iter()), "jval": jvv, "jac": jd});
}
