//! The variable types the drivers use: the library's own or, with the feature `uservars`, types a user could have
//! written: they implement the required methods of `Variable` only and inherit everything else from the trait.
#[cfg(not(feature = "uservars"))]
pub use factrs::variables::*;
#[cfg(feature = "uservars")]
pub use factrs::variables::{ImuBias, MatrixLieGroup, VariableSafe, VariableUmbrella, VectorVar, VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6};
#[cfg(feature = "uservars")]
pub use user::*;

/// longer than any vector the library names
pub type VectorVar9<T = factrs::dtype> = factrs::variables::VectorVar<9, T>;

#[cfg(feature = "uservars")]
mod user {
    use factrs::{
        dtype,
        linalg::{Const, MatrixDim, MatrixViewDim, Numeric, Vector3, Vector4, VectorViewX, VectorX},
        traits::*,
        variables::{self as lib, MatrixLieGroup},
    };
    use std::{fmt, ops};

    macro_rules! user {
        ($($t:ident, $n:literal, $m:literal, $v:literal);*) => {$(
            #[derive(Clone)]
            pub struct $t<T: Numeric = dtype>(pub lib::$t<T>);
            impl<T: Numeric> Variable<T> for $t<T> {
                type Dim = Const<$n>;
                type Alias<TT: Numeric> = $t<TT>;
                fn identity() -> Self { $t(<lib::$t<T> as Variable<T>>::identity()) }
                fn inverse(&self) -> Self { $t(self.0.inverse()) }
                fn compose(&self, o: &Self) -> Self { $t(self.0.compose(&o.0)) }
                fn exp(d: VectorViewX<T>) -> Self { $t(<lib::$t<T> as Variable<T>>::exp(d)) }
                fn log(&self) -> VectorX<T> { self.0.log() }
                fn dual_convert<TT: Numeric>(o: &$t<dtype>) -> $t<TT> { $t(<lib::$t<T> as Variable<T>>::dual_convert::<TT>(&o.0)) }
            }
            impl<T: Numeric> MatrixLieGroup<T> for $t<T> {
                type TangentDim = Const<$n>;
                type MatrixDim = Const<$m>;
                type VectorDim = Const<$v>;
                fn adjoint(&self) -> MatrixDim<Const<$n>, Const<$n>, T> { self.0.adjoint() }
                fn hat(x: MatrixViewDim<'_, Const<$n>, Const<1>, T>) -> MatrixDim<Const<$m>, Const<$m>, T> { lib::$t::<T>::hat(x) }
                fn vee(x: MatrixViewDim<'_, Const<$m>, Const<$m>, T>) -> MatrixDim<Const<$n>, Const<1>, T> { lib::$t::<T>::vee(x) }
                fn hat_swap(x: MatrixViewDim<'_, Const<$v>, Const<1>, T>) -> MatrixDim<Const<$v>, Const<$n>, T> { lib::$t::<T>::hat_swap(x) }
                fn apply(&self, p: MatrixViewDim<'_, Const<$v>, Const<1>, T>) -> MatrixDim<Const<$v>, Const<1>, T> { self.0.apply(p) }
                fn to_matrix(&self) -> MatrixDim<Const<$m>, Const<$m>, T> { self.0.to_matrix() }
                fn from_matrix(m: MatrixViewDim<'_, Const<$m>, Const<$m>, T>) -> Self { $t(lib::$t::<T>::from_matrix(m)) }
            }
            impl<T: Numeric> ops::Mul for $t<T> { type Output = Self; fn mul(self, o: Self) -> Self { self.compose(&o) } }
            impl<T: Numeric> ops::Mul for &$t<T> { type Output = $t<T>; fn mul(self, o: Self) -> $t<T> { self.compose(o) } }
            impl<T: Numeric> ops::Deref for $t<T> { type Target = lib::$t<T>; fn deref(&self) -> &lib::$t<T> { &self.0 } }
            impl<T: Numeric> fmt::Display for $t<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "user") } }
            impl<T: Numeric> fmt::Debug for $t<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "user") } }
        )*};
    }
    user!(SO2, 1, 2, 2; SE2, 3, 3, 2; SO3, 3, 3, 3; SE3, 6, 4, 3);
    impl SO2 { pub fn from_theta(t: dtype) -> Self { SO2(lib::SO2::from_theta(t)) } }
    impl SE2 { pub fn new(t: dtype, x: dtype, y: dtype) -> Self { SE2(lib::SE2::new(t, x, y)) } }
    impl SO3 {
        pub fn from_xyzw(x: dtype, y: dtype, z: dtype, w: dtype) -> Self { SO3(lib::SO3::from_xyzw(x, y, z, w)) }
        pub fn from_vec(v: Vector4) -> Self { SO3(lib::SO3::from_vec(v)) }
    }
    impl SE3 { pub fn from_rot_trans(r: SO3, t: Vector3) -> Self { SE3(lib::SE3::from_rot_trans(r.0, t)) } }
}
