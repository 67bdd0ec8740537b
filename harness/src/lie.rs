//! Drivers for the variable types (C08-C10).
use crate::{jm, json::*, kinds::*, obj, with_kind, with_lie, Rec};
use factrs::variables::VariableSafe;
use factrs::traits::*;

fn is_lie(k: &str) -> bool {
    matches!(k, "SO2" | "SE2" | "SO3" | "SE3")
}

/// A program over registers: every op appends one element; each result is recorded with everything observable.
pub fn program(scn: &J, rec: &Rec) {
    let k = scn.get("kind").str();
    if is_lie(k) {
        with_lie!(k, T => prog_lie::<T>(scn, rec))
    } else {
        with_kind!(k, T => prog_any::<T>(scn, rec, |_, _| None, |_, o| o))
    }
}

fn prog_lie<T: LieOps>(scn: &J, rec: &Rec) {
    let pts: Vec<Vec<f64>> = scn.get("pts").fm();
    prog_any::<T>(
        scn,
        rec,
        |op, regs| {
            let reg = |i: usize| &regs[op.at(i).us() - 1];
            match op.at(0).str() {
                "mul" => Some(T::mul_val(reg(1).clone(), reg(2).clone())),
                "mulref" => Some(T::mul_ref(reg(1), reg(2))),
                "frommat" => Some(T::of_matrix(&op.at(1).fm())),
                _ => None,
            }
        },
        |x, o| match o {
            J::Obj(mut v) => {
                v.push(("mat".into(), x.matrix()));
                v.push(("pts".into(), J::Arr(pts.iter().map(|p| x.act(p)).collect())));
                J::Obj(v)
            }
            o => o,
        },
    )
}

fn prog_any<T: Kind>(
    scn: &J,
    rec: &Rec,
    extra: impl Fn(&J, &[T]) -> Option<T>,
    more: impl Fn(&T, J) -> J,
) {
    let mut regs: Vec<T> = vec![];
    for op in scn.get("ops").arr() {
        let reg = |i: usize| &regs[op.at(i).us() - 1];
        let x = match op.at(0).str() {
            "new" => T::make(&op.at(1).fv()),
            "identity" => T::identity(),
            "compose" => reg(1).compose(reg(2)),
            "inverse" => reg(1).inverse(),
            "clone" => reg(1).clone(),
            "minus" => factrs::variables::Variable::minus(reg(1), reg(2)),
            "sub" | "subref" | "unbias" => T::difference(op.at(0).str(), reg(1), reg(2)).expect("HARNESS: difference"),
            "from" | "into" | "zeros" | "zeros2" => T::built(op.at(0).str(), &op.at(1).fv()).expect("HARNESS: constructor"),
            _ => extra(op, &regs).unwrap_or_else(|| panic!("HARNESS: op {op:?}")),
        };
        let o = obj! {"e": s("op"), "raw": rv(&x.raw()), "acc": x.acc(), "dim": int(factrs::variables::Variable::dim(&x))};
        rec.ev(more(&x, o));
        regs.push(x);
    }
}

/// exp/log/oplus/ominus/minus on given elements and tangent vectors (C09)
pub fn tangent(scn: &J, rec: &Rec) {
    with_kind!(scn.get("kind").str(), T => tan_any::<T>(scn, rec))
}

fn tan_any<T: Kind>(scn: &J, rec: &Rec) {
    use factrs::variables::Variable as V;
    for op in scn.get("ops").arr() {
        let el = |i: usize| T::make(&op.at(i).fv());
        let tv = |i: usize| vx(&op.at(i).fv());
        let g = |x: T| obj! {"e": s("el"), "raw": rv(&x.raw())};
        let v = |x: factrs::linalg::VectorX| obj! {"e": s("tan"), "xi": jv(x.iter())};
        rec.ev(match op.at(0).str() {
            "exp" => g(<T as V>::exp(tv(1).as_view())),
            "log" => v(V::log(&el(1))),
            "logexp" => v(V::log(&<T as V>::exp(tv(1).as_view()))),
            "oplus" => g(V::oplus(&el(1), tv(2).as_view())),
            "oplus_right" => g(V::oplus_right(&el(1), tv(2).as_view())),
            "oplus_left" => g(V::oplus_left(&el(1), tv(2).as_view())),
            "oplus_mut" => {
                let mut x = el(1);
                VariableSafe::oplus_mut(&mut x, tv(2).as_view());
                g(x)
            }
            "ominus" => v(V::ominus(&el(1), &el(2))),
            "ominus_right" => v(V::ominus_right(&el(1), &el(2))),
            "ominus_left" => v(V::ominus_left(&el(1), &el(2))),
            "minus" => g(V::minus(&el(1), &el(2))),
            "back" => {
                let (x, y) = (el(1), el(2));
                let d = V::ominus(&x, &y);
                g(V::oplus(&y, d.as_view()))
            }
            o => panic!("HARNESS: op {o}"),
        });
    }
}

/// hat, vee, adjoint, hat_swap, dexp (C10)
pub fn algebra(scn: &J, rec: &Rec) {
    with_lie!(scn.get("kind").str(), T => alg_any::<T>(scn, rec))
}

fn alg_any<T: LieOps>(scn: &J, rec: &Rec) {
    for op in scn.get("ops").arr() {
        rec.ev(match op.at(0).str() {
            "hat" => obj! {"e": s("m"), "m": T::jhat(&op.at(1).fv())},
            "vee" => obj! {"e": s("v"), "v": T::jvee(&op.at(1).fm())},
            "veehat" => obj! {"e": s("v"), "v": T::jvee(&T::jhat(&op.at(1).fv()).fm())},
            "adjoint" => obj! {"e": s("m"), "m": T::make(&op.at(1).fv()).jadjoint()},
            "hat_swap" => obj! {"e": s("m"), "m": T::jhat_swap(&op.at(1).fv())},
            "dexp" => {
                let v = op.at(1).fv();
                let x = factrs::linalg::Vector3::new(v[0] as D, v[1] as D, v[2] as D);
                obj! {"e": s("m"), "m": jm!(factrs::variables::SO3::dexp(x.as_view()))}
            }
            o => panic!("HARNESS: op {o}"),
        });
    }
}
