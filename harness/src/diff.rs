//! Differentiation (C11): functions of one to six variables whose value is a known expression of the variables'
//! matrix entries:  out_r = sum_i A[r][i].phi(x_i) + prod_i (1 + B[r][i].phi(x_i)).
use crate::{jm, json::*, kinds::*, obj, Rec};
use factrs::{
    linalg::{forward_prop_derivative, numerical_derivative, Const, Diff, DiffResult, DualScalar, DualVector, ForwardProp, MatrixX, Numeric, NumericalDiff, VectorX},
    traits::*,
};
use crate::vars::*;

pub trait Feat<T: Numeric> {
    fn phi(&self) -> Vec<T>;
}
macro_rules! feat_lie {
    ($($t:ident, $r:literal, $c:literal);*) => {$(
        impl<T: Numeric> Feat<T> for $t<T> {
            fn phi(&self) -> Vec<T> {
                let m = self.to_matrix();
                (0..$r).flat_map(|i| (0..$c).map(move |j| (i, j))).map(|ij| m[ij]).collect()
            }
        }
    )*};
}
feat_lie!(SO2, 2, 2; SE2, 2, 3; SO3, 3, 3; SE3, 3, 4);
impl<const N: usize, T: Numeric> Feat<T> for VectorVar<N, T> {
    fn phi(&self) -> Vec<T> {
        self.0.iter().copied().collect()
    }
}
impl<T: Numeric> Feat<T> for ImuBias<T> {
    fn phi(&self) -> Vec<T> {
        self.gyro().iter().chain(self.accel().iter()).copied().collect()
    }
}

pub type Coef = Vec<Vec<Vec<f64>>>;
pub fn coef(j: &J) -> Coef {
    j.arr().iter().map(|x| x.fm()).collect()
}
pub fn comb<T: Numeric>(phis: &[Vec<T>], a: &Coef, b: &Coef) -> VectorX<T> {
    let row = |r: usize| {
        let mut sum = T::from(0.0);
        let mut prod = T::from(1.0);
        for (i, p) in phis.iter().enumerate() {
            let mut fac = T::from(1.0);
            for (j, x) in p.iter().enumerate() {
                sum += *x * T::from(a[r][i][j] as D);
                fac += *x * T::from(b[r][i][j] as D);
            }
            prod *= fac;
        }
        sum + prod
    };
    VectorX::from_iterator(a.len(), (0..a.len()).map(row))
}

fn out(e: &str, r: DiffResult<VectorX, MatrixX>) -> J {
    obj! {"e": s(e), "val": jv(r.value.iter()), "jac": jm!(r.diff)}
}
fn outg(e: &str, r: DiffResult<D, VectorX>) -> J {
    obj! {"e": s(e), "val": J::Arr(vec![crate::json::r(r.value as f64)]), "jac": J::Arr(vec![jv(r.diff.iter())])}
}

macro_rules! sig {
    ($scn:expr, $rec:expr, $jac:ident, $grad:ident, $dim:literal, $($x:ident : $i:literal : $t:ident),*) => {{
        let raws = $scn.get("x").fm();
        let (a, b) = (coef($scn.get("a")), coef($scn.get("b")));
        $(let $x = <$t as Kind>::make(&raws[$i]);)*
        type DV = DualVector<Const<$dim>>;
        $rec.ev(out("fwd", ForwardProp::<Const<$dim>>::$jac(
            |$($x: $t<DV>),*| comb(&[$($x.phi()),*], &a, &b), $(&$x),*)));
        $rec.ev(out("num", NumericalDiff::<6>::$jac(
            |$($x: $t<D>),*| comb(&[$($x.phi()),*], &a, &b), $(&$x),*)));
        $rec.ev(out("num4", NumericalDiff::<4>::$jac(
            |$($x: $t<D>),*| comb(&[$($x.phi()),*], &a, &b), $(&$x),*)));
        $rec.ev(outg("fwdgrad", ForwardProp::<Const<$dim>>::$grad(
            |$($x: $t<DV>),*| comb(&[$($x.phi()),*], &a, &b)[0], $(&$x),*)));
        $rec.ev(outg("numgrad", NumericalDiff::<6>::$grad(
            |$($x: $t<D>),*| comb(&[$($x.phi()),*], &a, &b)[0], $(&$x),*)));
    }};
}

pub fn jacobians(scn: &J, rec: &Rec) {
    match scn.get("sig").str() {
        "SO2" => sig!(scn, rec, jacobian_1, gradient_1, 1, p:0:SO2),
        "SE2" => sig!(scn, rec, jacobian_1, gradient_1, 3, p:0:SE2),
        "SO3" => sig!(scn, rec, jacobian_1, gradient_1, 3, p:0:SO3),
        "SE3" => sig!(scn, rec, jacobian_1, gradient_1, 6, p:0:SE3),
        "V1" => sig!(scn, rec, jacobian_1, gradient_1, 1, p:0:VectorVar1),
        "V4" => sig!(scn, rec, jacobian_1, gradient_1, 4, p:0:VectorVar4),
        "BIAS" => sig!(scn, rec, jacobian_1, gradient_1, 6, p:0:ImuBias),
        "SE2,SE2" => sig!(scn, rec, jacobian_2, gradient_2, 6, p:0:SE2, q:1:SE2),
        "SE3,V3" => sig!(scn, rec, jacobian_2, gradient_2, 9, p:0:SE3, q:1:VectorVar3),
        "V2,SO2" => sig!(scn, rec, jacobian_2, gradient_2, 3, p:0:VectorVar2, q:1:SO2),
        "V1,SE2,SO3" => sig!(scn, rec, jacobian_3, gradient_3, 7, p:0:VectorVar1, q:1:SE2, t:2:SO3),
        "SE3,SO2,V2" => sig!(scn, rec, jacobian_3, gradient_3, 9, p:0:SE3, q:1:SO2, t:2:VectorVar2),
        "SO2,V3,SE2,V1" => sig!(scn, rec, jacobian_4, gradient_4, 8, p:0:SO2, q:1:VectorVar3, t:2:SE2, u:3:VectorVar1),
        "BIAS,V2,SO3,V2" => sig!(scn, rec, jacobian_4, gradient_4, 13, p:0:ImuBias, q:1:VectorVar2, t:2:SO3, u:3:VectorVar2),
        "V1,V2,V3,V4,V5" => sig!(scn, rec, jacobian_5, gradient_5, 15, p:0:VectorVar1, q:1:VectorVar2, t:2:VectorVar3, u:3:VectorVar4, v:4:VectorVar5),
        "SO2,SE2,SO3,SE3,V2" => sig!(scn, rec, jacobian_5, gradient_5, 15, p:0:SO2, q:1:SE2, t:2:SO3, u:3:SE3, v:4:VectorVar2),
        "V6,SO3,V1,SE2,SO2,V2" => sig!(scn, rec, jacobian_6, gradient_6, 16, p:0:VectorVar6, q:1:SO3, t:2:VectorVar1, u:3:SE2, v:4:SO2, w:5:VectorVar2),
        "SE3,V3,BIAS,SE3,V3,BIAS" => sig!(scn, rec, jacobian_6, gradient_6, 30, p:0:SE3, q:1:VectorVar3, t:2:ImuBias, u:3:SE3, v:4:VectorVar3, w:5:ImuBias),
        o => panic!("HARNESS: signature {o}"),
    }
}

/// the group operations themselves, evaluated on dual numbers and differentiated
macro_rules! ops {
    ($scn:expr, $rec:expr, $g:ident, $tan:ident, $pt:ident, $n:literal, $np:literal, $nn:literal) => {{
        let raws = $scn.get("x").fm();
        type P = DualVector<Const<$np>>;
        type E = DualVector<Const<$n>>;
        type O = DualVector<Const<$nn>>;
        let r = match $scn.get("op").str() {
            "apply" => ForwardProp::<Const<$np>>::jacobian_2(
                |x: $g<P>, v: $pt<P>| VectorX::from_iterator(v.0.len(), x.apply(v.0.as_view()).iter().copied()),
                &<$g as Kind>::make(&raws[0]), &<$pt as Kind>::make(&raws[1])),
            "applyinv" => ForwardProp::<Const<$np>>::jacobian_2(
                |x: $g<P>, v: $pt<P>| VectorX::from_iterator(v.0.len(), x.inverse().apply(v.0.as_view()).iter().copied()),
                &<$g as Kind>::make(&raws[0]), &<$pt as Kind>::make(&raws[1])),
            "exp" => ForwardProp::<Const<$n>>::jacobian_1(
                |v: $tan<E>| VectorX::from_vec(<$g<E> as Variable<E>>::exp(v.0.as_view()).phi()), &<$tan as Kind>::make(&raws[0])),
            "oplus" => ForwardProp::<Const<$nn>>::jacobian_2(
                |x: $g<O>, v: $tan<O>| VectorX::from_vec(x.oplus(v.0.as_view()).phi()),
                &<$g as Kind>::make(&raws[0]), &<$tan as Kind>::make(&raws[1])),
            o => panic!("HARNESS: operation {o}"),
        };
        $rec.ev(out("op", r));
    }};
}
pub fn operations(scn: &J, rec: &Rec) {
    match scn.get("kind").str() {
        "SO2" => ops!(scn, rec, SO2, VectorVar1, VectorVar2, 1, 3, 2),
        "SE2" => ops!(scn, rec, SE2, VectorVar3, VectorVar2, 3, 5, 6),
        "SO3" => ops!(scn, rec, SO3, VectorVar3, VectorVar3, 3, 6, 6),
        "SE3" => ops!(scn, rec, SE3, VectorVar6, VectorVar3, 6, 9, 12),
        o => panic!("HARNESS: kind {o}"),
    }
}

/// group-valued: the product of the arguments (some inverted)
pub fn group_jacobian(scn: &J, rec: &Rec) {
    crate::with_kind!(scn.get("kind").str(), T => group_any::<T>(scn, rec))
}
fn group_any<T: Kind>(scn: &J, rec: &Rec) {
    let x: Vec<T> = scn.get("x").fm().iter().map(|r| T::make(r)).collect();
    let inv: Vec<bool> = scn.get("inv").arr().iter().map(|b| b.bool()).collect();
    let word: Vec<usize> = scn.get("word").arr().iter().map(|w| w.us()).collect();
    let prod = |v: &[T]| {
        let mut acc = T::identity();
        for (y, i) in word.iter().map(|w| &v[*w - 1]).zip(&inv) {
            acc = if *i { acc.compose(&y.inverse()) } else { acc.compose(y) };
        }
        acc
    };
    type N = NumericalDiff<6>;
    let r: DiffResult<T, MatrixX> = match x.len() {
        1 => N::jacobian_variable_1(|a: T| prod(&[a]), &x[0]),
        2 => N::jacobian_variable_2(|a: T, b: T| prod(&[a, b]), &x[0], &x[1]),
        3 => N::jacobian_variable_3(|a: T, b: T, c: T| prod(&[a, b, c]), &x[0], &x[1], &x[2]),
        4 => N::jacobian_variable_4(|a: T, b: T, c: T, d: T| prod(&[a, b, c, d]), &x[0], &x[1], &x[2], &x[3]),
        5 => N::jacobian_variable_5(|a: T, b: T, c: T, d: T, e: T| prod(&[a, b, c, d, e]), &x[0], &x[1], &x[2], &x[3], &x[4]),
        _ => N::jacobian_variable_6(|a: T, b: T, c: T, d: T, e: T, f: T| prod(&[a, b, c, d, e, f]), &x[0], &x[1], &x[2], &x[3], &x[4], &x[5]),
    };
    rec.ev(obj! {"e": s("grp"), "raw": rv(&r.value.raw()), "jac": jm!(r.diff)});
}

/// (rotation, translation) -> pose: arguments of different dimensions
pub fn pose_jacobian(scn: &J, rec: &Rec) {
    let raws = scn.get("x").fm();
    let (a, b) = (SO3::make(&raws[0]), VectorVar3::make(&raws[1]));
    let r = if scn.get("swap").bool() {
        NumericalDiff::<6>::jacobian_variable_2(|t: VectorVar3, q: SO3| SE3::from_rot_trans(q, t.0), &b, &a)
    } else {
        NumericalDiff::<6>::jacobian_variable_2(|q: SO3, t: VectorVar3| SE3::from_rot_trans(q, t.0), &a, &b)
    };
    rec.ev(obj! {"e": s("grp"), "raw": rv(&r.value.raw()), "jac": jm!(r.diff)});
}

/// derivatives of scalar functions
pub fn scalar(scn: &J, rec: &Rec) {
    fn f<T: Numeric>(name: &str, c: &[f64], x: T) -> T {
        let k = |i: usize| T::from(c[i] as D);
        match name {
            "poly" => k(0) + x * k(1) + x * x * k(2) + x * x * x * k(3),
            "sin" => k(0) * (x * k(1)).sin(),
            "exp" => k(0) * (x * k(1)).exp(),
            "rat" => k(0) / (T::from(1.0) + x * x * k(1) * k(1)),
            o => panic!("HARNESS: function {o}"),
        }
    }
    let (name, c, x) = (scn.get("f").str(), scn.get("c").fv(), scn.get("x").f() as D);
    let n = numerical_derivative(|x| f::<D>(name, &c, x), x, 1e-6);
    rec.ev(obj! {"e": s("num"), "val": r(n.value as f64), "diff": r(n.diff as f64)});
    let d = forward_prop_derivative(|x| f::<DualScalar>(name, &c, x), x);
    rec.ev(obj! {"e": s("fwd"), "val": r(d.value as f64), "diff": r(d.diff as f64)});
}
