//! IMU preintegration: histories of integrate() and the factor built from them.
use crate::{json::*, kinds::*, probs::*, Rec, obj, jm};
use factrs::{
    assign_symbols,
    containers::{Factor, Key, Values},
    linalg::{Matrix3, Vector3},
    residuals::{Accel, Gravity, Gyro, ImuCovariance, ImuPreintegrator},
    variables::*,
};

assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);

fn v3(j: &J) -> Vector3 {
    let v = j.fv();
    Vector3::new(v[0] as D, v[1] as D, v[2] as D)
}
fn m3(j: &J) -> Matrix3 {
    let m = j.fm();
    Matrix3::from_fn(|a, b| m[a][b] as D)
}
fn params(j: &J) -> ImuCovariance {
    let mut p = ImuCovariance::default();
    let q = j.get("q");
    match j.get("kind").str() {
        "default" => {}
        "scalars" => {
            let on: Vec<bool> = j.get("set").arr().iter().map(|x| x.bool()).collect();
            let sc = |n: &str| m3(q.get(n))[(0, 0)];
            if on[0] { p.set_scalar_accel(sc("accel")); }
            if on[1] { p.set_scalar_gyro(sc("gyro")); }
            if on[2] { p.set_scalar_accel_bias(sc("accel_bias")); }
            if on[3] { p.set_scalar_gyro_bias(sc("gyro_bias")); }
            if on[4] { p.set_scalar_integration(sc("integration")); }
            if on[5] { p.set_scalar_init(sc("winit")); }
        }
        _ => {
            p.cov_accel = m3(q.get("accel"));
            p.cov_gyro = m3(q.get("gyro"));
            p.cov_accel_bias = m3(q.get("accel_bias"));
            p.cov_gyro_bias = m3(q.get("gyro_bias"));
            p.cov_integration = m3(q.get("integration"));
            p.cov_winit = m3(q.get("winit"));
            p.cov_ainit = m3(q.get("ainit"));
        }
    }
    p
}

fn build(pre: &ImuPreintegrator, scn: &J) -> Factor {
    let k = scn.get("keys");
    if scn.get("typed").bool() {
        let n = |i: usize| k.at(i).at(1).us() as u64;
        pre.clone().build(X(n(0)), V(n(1)), B(n(2)), X(n(3)), V(n(4)), B(n(5)))
    } else {
        pre.clone().build_unchecked(sym(k.at(0)), sym(k.at(1)), sym(k.at(2)), sym(k.at(3)), sym(k.at(4)), sym(k.at(5)))
    }
}

fn probe(fac: &Factor, scn: &J, p: &J, rec: &Rec, n: usize) {
    let keys: Vec<Key> = scn.get("keys").arr().iter().map(key).collect();
    let mut v = Values::new();
    // inserted in an order of their own
    for (i, f, kind) in [(5, "b2", "BIAS"), (1, "v1", "V3"), (3, "x2", "SE3"), (0, "x1", "SE3"), (4, "v2", "V3"), (2, "b1", "BIAS")] {
        crate::with_kind!(kind, T => v.insert_unchecked(sym(scn.get("keys").at(i)), T::make(&p.get(f).fv())));
    }
    let err = fac.error(&v);
    let lin = fac.linearize(&v);
    rec.ev(obj! {"e": s("probe"), "p": int(n), "err": r(err as f64), "dout": int(fac.dim_out()),
                 "keys": J::Arr(fac.keys().iter().map(|k| int(key_no(&keys, k))).collect()),
                 "lkeys": J::Arr(lin.keys.iter().map(|k| int(key_no(&keys, k))).collect()),
                 "widths": J::Arr((0..lin.keys.len()).map(|i| int(lin.a.get_block(i).ncols())).collect()),
                 "a": jm!(lin.a.mat()), "b": jv(lin.b.iter())});
}

fn start(scn: &J) -> ImuPreintegrator {
    let gravity = match scn.get("gname").str() {
        "up" => Gravity::up(),
        "down" => Gravity::down(),
        _ => Gravity(v3(scn.get("g"))),
    };
    ImuPreintegrator::new(params(scn.get("qset")), <ImuBias as Kind>::make(&scn.get("b0").fv()), gravity)
}
fn integrate(pre: &mut ImuPreintegrator, m: &J) {
    let (g, a) = (m.get("gyro").fv(), m.get("accel").fv());
    pre.integrate(&Gyro::new(g[0] as D, g[1] as D, g[2] as D), &Accel(Vector3::new(a[0] as D, a[1] as D, a[2] as D)), m.get("dt").f() as D);
}
/// the factor made from all the measurements
pub fn factor(scn: &J) -> Factor {
    let mut pre = start(scn);
    for m in scn.get("ms").arr() {
        integrate(&mut pre, m);
    }
    build(&pre, scn)
}

pub fn history(scn: &J, rec: &Rec) {
    let mut pre = start(scn);
    let ms = scn.get("ms").arr();
    for n in 0..=ms.len() {
        if n > 0 {
            integrate(&mut pre, &ms[n - 1]);
            rec.ev(obj! {"e": s("integrate")});
        }
        for (i, p) in scn.get("probes").arr().iter().enumerate() {
            if p.get("after").us() == n {
                probe(&build(&pre, scn), scn, p, rec, i + 1);
            }
        }
    }
}
