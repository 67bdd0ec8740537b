//! The variable types, seen uniformly: raw components in, raw components out.
use crate::json::*;
use factrs::{
    dtype,
    linalg::{MatrixX, Vector, Vector2, Vector3, VectorX},
    residuals::{Accel, Gyro},
    traits::*,
};
use crate::vars::*;

pub type D = dtype;

pub fn vx(v: &[f64]) -> VectorX {
    VectorX::from_iterator(v.len(), v.iter().map(|x| *x as D))
}
pub fn dvec<'a>(v: impl IntoIterator<Item = &'a D>) -> Vec<f64> {
    v.into_iter().map(|x| *x as f64).collect()
}
pub fn jv<'a>(v: impl IntoIterator<Item = &'a D>) -> J {
    J::Arr(v.into_iter().map(|x| r(*x as f64)).collect())
}
/// any nalgebra matrix as rows
#[macro_export]
macro_rules! jm {
    ($m:expr) => {{
        let m = &$m;
        $crate::json::J::Arr(
            (0..m.nrows())
                .map(|i| $crate::json::J::Arr((0..m.ncols()).map(|j| $crate::json::r(m[(i, j)] as f64)).collect()))
                .collect(),
        )
    }};
}
pub fn mx(m: &[Vec<f64>]) -> MatrixX {
    let c = if m.is_empty() { 0 } else { m[0].len() };
    MatrixX::from_fn(m.len(), c, |i, j| m[i][j] as D)
}

pub trait Kind: VariableUmbrella + 'static {
    const NAME: &'static str;
    fn make(raw: &[f64]) -> Self;
    fn raw(&self) -> Vec<f64>;
    /// public accessors, as the user sees them
    fn acc(&self) -> J;
    /// further ways to the difference of two elements, where the type has them
    fn difference(_how: &str, _a: &Self, _b: &Self) -> Option<Self> {
        None
    }
    /// other constructors
    fn built(_how: &str, _raw: &[f64]) -> Option<Self> {
        None
    }
}

fn arr<const N: usize>(v: &[f64]) -> Vector<N> {
    Vector::<N>::from_iterator(v.iter().map(|x| *x as D))
}

impl Kind for SO2 {
    const NAME: &'static str = "SO2";
    // raw <<c, s>>: built through the public angle constructor
    fn make(raw: &[f64]) -> Self {
        SO2::from_theta(raw[1].atan2(raw[0]) as D)
    }
    fn raw(&self) -> Vec<f64> {
        let m = self.to_matrix();
        vec![m[(0, 0)] as f64, m[(1, 0)] as f64]
    }
    fn acc(&self) -> J {
        J::Arr(vec![r(self.to_theta() as f64)])
    }
}
impl Kind for SE2 {
    const NAME: &'static str = "SE2";
    fn make(raw: &[f64]) -> Self {
        SE2::new(raw[1].atan2(raw[0]) as D, raw[2] as D, raw[3] as D)
    }
    fn raw(&self) -> Vec<f64> {
        let m = self.rot().to_matrix();
        vec![m[(0, 0)] as f64, m[(1, 0)] as f64, self.x() as f64, self.y() as f64]
    }
    fn acc(&self) -> J {
        jv([self.theta(), self.x(), self.y(), self.xy()[0], self.xy()[1]].iter())
    }
}
impl Kind for SO3 {
    const NAME: &'static str = "SO3";
    fn make(raw: &[f64]) -> Self {
        SO3::from_xyzw(raw[0] as D, raw[1] as D, raw[2] as D, raw[3] as D)
    }
    fn raw(&self) -> Vec<f64> {
        dvec(self.xyzw.iter())
    }
    fn acc(&self) -> J {
        jv([self.x(), self.y(), self.z(), self.w()].iter())
    }
}
impl Kind for SE3 {
    const NAME: &'static str = "SE3";
    fn make(raw: &[f64]) -> Self {
        SE3::from_rot_trans(
            SO3::from_vec(factrs::linalg::Vector4::new(raw[0] as D, raw[1] as D, raw[2] as D, raw[3] as D)),
            Vector3::new(raw[4] as D, raw[5] as D, raw[6] as D),
        )
    }
    fn raw(&self) -> Vec<f64> {
        let mut v = dvec(self.rot().xyzw.iter());
        v.extend(dvec(self.xyz().iter()));
        v
    }
    fn acc(&self) -> J {
        jv(self.rot().xyzw.iter().chain(self.xyz().iter()))
    }
}
// longer vectors have no constructor by components
macro_rules! vnew {
    ($t:ident, $raw:ident, $n:literal,) => { VectorVar(arr::<$n>($raw)) };
    ($t:ident, $raw:ident, $n:literal, $($i:literal),*) => { $t::new($($raw[$i] as D),*) };
}
macro_rules! vkind {
    ($($t:ident, $n:literal, $name:literal, [$($i:literal),*]);*) => {$(
        impl Kind for $t {
            const NAME: &'static str = $name;
            fn make(raw: &[f64]) -> Self { vnew!($t, raw, $n, $($i),*) }
            fn raw(&self) -> Vec<f64> { dvec(self.0.iter()) }
            fn acc(&self) -> J { J::Arr((0..$n).map(|i| r(self[i] as f64)).collect()) }
            fn built(how: &str, raw: &[f64]) -> Option<Self> {
                let v = arr::<$n>(raw);
                match how {
                    "from" => Some($t::from(v)),
                    "into" => {
                        let w: Vector<$n> = VectorVar(v).into();
                        Some(VectorVar(w))
                    }
                    _ => None,
                }
            }
        }
    )*};
}
vkind!(VectorVar1, 1, "V1", [0]; VectorVar2, 2, "V2", [0, 1]; VectorVar3, 3, "V3", [0, 1, 2];
       VectorVar4, 4, "V4", [0, 1, 2, 3]; VectorVar5, 5, "V5", [0, 1, 2, 3, 4]; VectorVar6, 6, "V6", [0, 1, 2, 3, 4, 5]; VectorVar9, 9, "V9", []);
impl Kind for ImuBias {
    const NAME: &'static str = "BIAS";
    fn make(raw: &[f64]) -> Self {
        ImuBias::new(
            Gyro::new(raw[0] as D, raw[1] as D, raw[2] as D),
            Accel::new(raw[3] as D, raw[4] as D, raw[5] as D),
        )
    }
    fn raw(&self) -> Vec<f64> {
        let mut v = dvec(self.gyro().iter());
        v.extend(dvec(self.accel().iter()));
        v
    }
    fn acc(&self) -> J {
        jv(self.gyro().iter().chain(self.accel().iter()))
    }
    fn difference(how: &str, a: &Self, b: &Self) -> Option<Self> {
        let vec = |v: &Vector3| -> Vector3 { *v };
        match how {
            "sub" => Some(a.clone() - b.clone()),
            "subref" => Some(a - b),
            "unbias" => Some(ImuBias::new(Gyro(Gyro(vec(a.gyro())).remove_bias(b).0), Accel(Accel(vec(a.accel())).remove_bias(b).0))),
            _ => None,
        }
    }
    fn built(how: &str, _raw: &[f64]) -> Option<Self> {
        match how {
            "zeros" => Some(ImuBias::zeros()),
            "zeros2" => Some(ImuBias::new(Gyro::zeros(), Accel::zeros())),
            _ => None,
        }
    }
}

/// operations only matrix Lie groups have
pub trait LieOps: Kind {
    fn mul_val(a: Self, b: Self) -> Self;
    fn mul_ref(a: &Self, b: &Self) -> Self;
    fn matrix(&self) -> J;
    fn of_matrix(m: &[Vec<f64>]) -> Self;
    fn act(&self, p: &[f64]) -> J;
    fn jhat(xi: &[f64]) -> J;
    fn jvee(m: &[Vec<f64>]) -> J;
    fn jadjoint(&self) -> J;
    fn jhat_swap(p: &[f64]) -> J;
}
macro_rules! lieops {
    ($($t:ident, $n:literal, $m:literal, $v:literal);*) => {$(
        impl LieOps for $t {
            fn mul_val(a: Self, b: Self) -> Self { a * b }
            fn mul_ref(a: &Self, b: &Self) -> Self { a * b }
            fn matrix(&self) -> J { jm!(self.to_matrix()) }
            fn of_matrix(m: &[Vec<f64>]) -> Self {
                let m = factrs::linalg::Matrix::<$m, $m>::from_fn(|i, j| m[i][j] as D);
                $t::from_matrix(m.as_view())
            }
            fn act(&self, p: &[f64]) -> J { jv(self.apply(arr::<$v>(p).as_view()).iter()) }
            fn jhat(xi: &[f64]) -> J { jm!($t::hat(arr::<$n>(xi).as_view())) }
            fn jvee(m: &[Vec<f64>]) -> J {
                let m = factrs::linalg::Matrix::<$m, $m>::from_fn(|i, j| m[i][j] as D);
                jv($t::vee(m.as_view()).iter())
            }
            fn jadjoint(&self) -> J { jm!(self.adjoint()) }
            fn jhat_swap(p: &[f64]) -> J { jm!($t::hat_swap(arr::<$v>(p).as_view())) }
        }
    )*};
}
lieops!(SO2, 1, 2, 2; SE2, 3, 3, 2; SO3, 3, 3, 3; SE3, 6, 4, 3);

pub fn _unused() -> Vector2 {
    Vector2::zeros()
}

#[macro_export]
macro_rules! with_kind {
    ($k:expr, $T:ident => $e:expr) => {{
        use $crate::vars::*;
        match $k {
            "SO2" => { type $T = SO2; $e }
            "SE2" => { type $T = SE2; $e }
            "SO3" => { type $T = SO3; $e }
            "SE3" => { type $T = SE3; $e }
            "V1" => { type $T = VectorVar1; $e }
            "V2" => { type $T = VectorVar2; $e }
            "V3" => { type $T = VectorVar3; $e }
            "V4" => { type $T = VectorVar4; $e }
            "V5" => { type $T = VectorVar5; $e }
            "V6" => { type $T = VectorVar6; $e }
            "V9" => { type $T = VectorVar9; $e }
            "BIAS" => { type $T = ImuBias; $e }
            other => panic!("unknown kind {other}"),
        }
    }};
}
#[macro_export]
macro_rules! with_lie {
    ($k:expr, $T:ident => $e:expr) => {{
        use $crate::vars::*;
        match $k {
            "SO2" => { type $T = SO2; $e }
            "SE2" => { type $T = SE2; $e }
            "SO3" => { type $T = SO3; $e }
            "SE3" => { type $T = SE3; $e }
            other => panic!("unknown lie kind {other}"),
        }
    }};
}
