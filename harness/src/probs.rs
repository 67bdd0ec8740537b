//! Problems described in JSON: keys, values, noise models, robust kernels, residuals, factors, graphs.
use crate::{diff::*, json::*, kinds::*};
use factrs::{
    containers::{DefaultSymbol, Factor, FactorBuilder, Graph, Key, Values, ValuesOrder},
    linalg::{Const, DiffResult, ForwardProp, Matrix, MatrixX, Numeric, Vector, VectorX},
    noise::{GaussianNoise, NoiseModel, UnitNoise},
    residuals::{BetweenResidual, PriorResidual, Residual, Residual1, Residual2, Residual3, Residual4, Residual5, Residual6},
    robust::*,
    traits::*,
};
use crate::vars::*;
use std::fmt;

// ------------------------- keys and values ------------------------- //
pub fn sym(j: &J) -> DefaultSymbol {
    let c = match j.at(0).str() {
        "nul" => '\0',
        "max" => char::MAX,
        n => n.chars().next().unwrap(),
    };
    // the greatest index a scenario can write stands for the greatest there is
    let no = j.at(1).us() as u64;
    DefaultSymbol::new(c, if no == 2147483647 && c == char::MAX { u32::MAX as u64 } else { no })
}
pub fn key(j: &J) -> Key {
    sym(j).into()
}
/// the key's position in the scenario's list of keys (1-based), 0 if it is none of them
pub fn key_no(keys: &[Key], k: &Key) -> usize {
    keys.iter().position(|x| x == k).map_or(0, |i| i + 1)
}
pub fn insert(v: &mut Values, j: &J) {
    crate::with_kind!(j.get("kind").str(), T => v.insert_unchecked(sym(j.get("key")), T::make(&j.get("raw").fv())));
}
pub fn values(j: &J) -> Values {
    let mut v = Values::new();
    for x in j.arr() {
        insert(&mut v, x);
    }
    v
}
mod pad {
    use factrs::{assign_symbols, variables::*};
    assign_symbols!(Z: VectorVar1);
}
/// the same variables in a map with another history (other insertion order, keys that came and went)
pub fn rebuilt(v: &Values, vars: &J) -> Values {
    let mut w = Values::new();
    for i in 0..24 {
        w.insert_unchecked(pad::Z(1000 + i), factrs::variables::VectorVar1::new(0.0));
    }
    for x in vars.arr().iter().rev() {
        crate::with_kind!(x.get("kind").str(), T => if let Some(y) = v.get_unchecked::<Key, T>(key(x.get("key"))) { w.insert_unchecked(sym(x.get("key")), y.clone()); });
    }
    for i in 0..24 {
        w.remove(pad::Z(1000 + i));
    }
    w
}
/// variables no factor mentions, and whether they are still there and as they were
pub fn bystanders(v: &mut Values, n: usize, wide: bool) {
    use factrs::variables::*;
    for i in 0..n as u64 {
        let x = i as D - 0.5;
        if wide {
            v.insert_unchecked(pad::Z(2000 + 7 * i), VectorVar3::new(x, x, x));
        } else {
            v.insert_unchecked(pad::Z(2000 + 7 * i), VectorVar1::new(x));
        }
    }
}
pub fn untouched(v: &Values, n: usize, wide: bool) -> bool {
    use factrs::variables::*;
    (0..n as u64).all(|i| {
        let (k, x) = (Key::from(pad::Z(2000 + 7 * i)), i as D - 0.5);
        if wide {
            v.get_unchecked::<Key, VectorVar3>(k).is_some_and(|y| y.0.iter().all(|z| *z == x))
        } else {
            v.get_unchecked::<Key, VectorVar1>(k).is_some_and(|y| y.0[0] == x)
        }
    })
}
/// raw components stored under a key, read as the given kind (empty when absent or of another type)
pub fn read(v: &Values, k: Key, kind: &str) -> Vec<f64> {
    crate::with_kind!(kind, T => v.get_unchecked::<Key, T>(k).map(|x| x.raw()).unwrap_or_default())
}
/// the scenario's variables as they are in `v` now
pub fn read_all(v: &Values, vars: &J) -> J {
    J::Arr(vars.arr().iter().map(|x| rv(&read(v, key(x.get("key")), x.get("kind").str()))).collect())
}
pub fn order_of(j: &J, vars: &J) -> ValuesOrder {
    // j: the order in which the variables (numbered from 1) get their columns
    let mut map: ahash::HashMap<Key, factrs::containers::Idx> = Default::default();
    let mut at = 0;
    for i in j.arr() {
        let v = vars.at(i.us() - 1);
        let dim = dim_of(v.get("kind").str());
        map.insert(key(v.get("key")), factrs::containers::Idx { idx: at, dim });
        at += dim;
    }
    ValuesOrder::new(map)
}
pub fn dim_of(kind: &str) -> usize {
    crate::with_kind!(kind, T => <<T as Variable>::Dim as factrs::linalg::DimName>::USIZE)
}

// ------------------------- noise ------------------------- //
/// a user-defined noise model with an arbitrary whitening matrix
#[derive(Clone, Debug)]
pub struct UserNoise<const N: usize> {
    pub w: Matrix<N, N>,
}
#[factrs::mark]
impl<const N: usize> NoiseModel for UserNoise<N> {
    type Dim = Const<N>;
    fn whiten_vec(&self, v: VectorX) -> VectorX {
        let mut out = VectorX::zeros(N);
        for i in 0..N {
            for j in 0..N {
                out[i] += self.w[(i, j)] * v[j];
            }
        }
        out
    }
    fn whiten_mat(&self, m: MatrixX) -> MatrixX {
        let mut out = MatrixX::zeros(N, m.ncols());
        for c in 0..m.ncols() {
            for i in 0..N {
                for j in 0..N {
                    out[(i, c)] += self.w[(i, j)] * m[(j, c)];
                }
            }
        }
        out
    }
}
impl<const N: usize> fmt::Display for UserNoise<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "UserNoise")
    }
}

pub fn gaussian<const N: usize>(j: &J) -> GaussianNoise<N> {
    let v = || Vector::<N>::from_iterator(j.get("v").fv().iter().map(|x| *x as D));
    let m = || {
        let m = j.get("m").fm();
        Matrix::<N, N>::from_fn(|a, b| m[a][b] as D)
    };
    match j.get("n").str() {
        "scalar_sigma" => GaussianNoise::from_scalar_sigma(j.get("v").at(0).f() as D),
        "scalar_cov" => GaussianNoise::from_scalar_cov(j.get("v").at(0).f() as D),
        "vec_sigma" => GaussianNoise::from_vec_sigma(v().as_view()),
        "vec_cov" => GaussianNoise::from_vec_cov(v().as_view()),
        "vec_inf" => GaussianNoise::from_vec_inf(v().as_view()),
        "matrix_cov" => GaussianNoise::from_matrix_cov(m().as_view()),
        "matrix_inf" => GaussianNoise::from_matrix_inf(m().as_view()),
        o => panic!("HARNESS: noise {o}"),
    }
}
pub fn user_noise<const N: usize>(j: &J) -> UserNoise<N> {
    let m = j.get("m").fm();
    UserNoise { w: Matrix::<N, N>::from_fn(|a, b| m[a][b] as D) }
}
fn with_noise<const N: usize>(b: FactorBuilder<N>, j: &J) -> FactorBuilder<N> {
    match j.get("n").str() {
        "none" => b,
        "unit" => b.noise(UnitNoise::<N>),
        "user" => b.noise(user_noise::<N>(j)),
        _ => b.noise(gaussian::<N>(j)),
    }
}
/// the matrix a noise model multiplies by
pub fn whitening(j: &J, n: usize) -> MatrixX {
    macro_rules! go {
        ($($n:literal),*) => {
            match (n, j.get("n").str()) {
                (n, "none") | (n, "unit") => MatrixX::identity(n, n),
                $(($n, "user") => user_noise::<$n>(j).whiten_mat(MatrixX::identity($n, $n)),
                  ($n, _) => gaussian::<$n>(j).whiten_mat(MatrixX::identity($n, $n)),)*
                _ => panic!("HARNESS: noise dimension {n}"),
            }
        };
    }
    go!(1, 2, 3, 4, 5, 6, 9)
}

// ------------------------- kernels ------------------------- //
/// a user-defined kernel
#[derive(Clone, Debug)]
pub struct UserKernel {
    pub c: D,
}
#[factrs::mark]
impl RobustCost for UserKernel {
    fn loss(&self, d2: D) -> D {
        self.c * (1.0 + d2).ln()
    }
    fn weight(&self, d2: D) -> D {
        2.0 * self.c / (1.0 + d2)
    }
}
#[macro_export]
macro_rules! with_kernel {
    ($j:expr, none => $none:expr, $k:ident => $e:expr) => {{
        let j = $j;
        let c = j.opt("c").map(|x| x.f() as $crate::kinds::D);
        macro_rules! par { ($T:ident) => {{ let $k = match c { Some(c) => $T::new(c), None => $T::default() }; $e }}; }
        match j.get("n").str() {
            "none" => $none,
            "L2" => { let $k = L2; $e }
            "L1" => { let $k = L1; $e }
            "Huber" => par!(Huber),
            "Fair" => par!(Fair),
            "Cauchy" => par!(Cauchy),
            "GemanMcClure" => par!(GemanMcClure),
            "Welsch" => par!(Welsch),
            "Tukey" => par!(Tukey),
            "user" => { let $k = $crate::probs::UserKernel { c: c.unwrap() }; $e }
            o => panic!("HARNESS: kernel {o}"),
        }
    }};
}
fn with_robust<const N: usize>(b: FactorBuilder<N>, j: &J) -> FactorBuilder<N> {
    with_kernel!(j, none => b, k => b.robust(k))
}

// ------------------------- residuals ------------------------- //
/// out_r = sum_i A[r][i].phi(x_i) + prod_i (1 + B[r][i].phi(x_i)) - c_r
#[derive(Clone, Debug)]
pub struct CombData {
    pub a: Coef,
    pub b: Coef,
    pub c: Vec<f64>,
}
impl CombData {
    fn of(j: &J) -> Self {
        CombData { a: coef(j.get("a")), b: coef(j.get("b")), c: j.get("c").fv() }
    }
    fn eval<T: Numeric>(&self, phis: &[Vec<T>]) -> VectorX<T> {
        let mut v = comb(phis, &self.a, &self.b);
        for (x, c) in v.iter_mut().zip(&self.c) {
            *x -= T::from(*c as D);
        }
        v
    }
}

pub fn comb_data(j: &J) -> CombData {
    CombData::of(j)
}

macro_rules! combres {
    ($($name:ident, $num:literal, $dim:literal, $sig:literal, [$($v:ident : $V:ident : $t:ident : $i:literal),*]);* $(;)?) => {
        paste::paste! {
            $(
                #[derive(Clone, Debug)]
                pub struct $name<const OUT: usize>(pub CombData);
                impl<const OUT: usize> fmt::Display for $name<OUT> {
                    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", $sig) }
                }
                #[factrs::mark]
                impl<const OUT: usize> [<Residual $num>] for $name<OUT> {
                    type Differ = ForwardProp<Const<$dim>>;
                    $(type $V = $t;)*
                    type DimIn = Const<$dim>;
                    type DimOut = Const<OUT>;
                    fn [<residual $num>]<T: Numeric>(&self, $($v: $t<T>),*) -> VectorX<T> {
                        self.0.eval(&[$($v.phi()),*])
                    }
                }
            )*
            fn comb_factor(j: &J) -> Factor {
                let (r, keys) = (j.get("res"), j.get("keys"));
                fn fin<const N: usize>(b: FactorBuilder<N>, j: &J) -> Factor {
                    build(b, j)
                }
                let d = CombData::of(r);
                match (r.get("sig").str(), d.c.len()) {
                    $(
                        ($sig, 1) => fin(FactorBuilder::[<new $num _unchecked>]($name::<1>(d), $(sym(keys.at($i))),*), j),
                        ($sig, 2) => fin(FactorBuilder::[<new $num _unchecked>]($name::<2>(d), $(sym(keys.at($i))),*), j),
                        ($sig, 3) => fin(FactorBuilder::[<new $num _unchecked>]($name::<3>(d), $(sym(keys.at($i))),*), j),
                        ($sig, 4) => fin(FactorBuilder::[<new $num _unchecked>]($name::<4>(d), $(sym(keys.at($i))),*), j),
                    )*
                    (o, n) => panic!("HARNESS: residual {o} {n}"),
                }
            }
            fn comb_res(r: &J) -> Box<dyn Residual> {
                let d = CombData::of(r);
                match (r.get("sig").str(), d.c.len()) {
                    $(
                        ($sig, 1) => Box::new($name::<1>(d)),
                        ($sig, 2) => Box::new($name::<2>(d)),
                        ($sig, 3) => Box::new($name::<3>(d)),
                        ($sig, 4) => Box::new($name::<4>(d)),
                    )*
                    (o, n) => panic!("HARNESS: residual {o} {n}"),
                }
            }
        }
    };
}
combres! {
    R1So2, 1, 1, "SO2", [p:V1:SO2:0];
    R1Se2, 1, 3, "SE2", [p:V1:SE2:0];
    R1So3, 1, 3, "SO3", [p:V1:SO3:0];
    R1Se3, 1, 6, "SE3", [p:V1:SE3:0];
    R1V1, 1, 1, "V1", [p:V1:VectorVar1:0];
    R1V2, 1, 2, "V2", [p:V1:VectorVar2:0];
    R1V3, 1, 3, "V3", [p:V1:VectorVar3:0];
    R2V1V1, 2, 2, "V1,V1", [p:V1:VectorVar1:0, q:V2:VectorVar1:1];
    R2V2V2, 2, 4, "V2,V2", [p:V1:VectorVar2:0, q:V2:VectorVar2:1];
    R2V3V3, 2, 6, "V3,V3", [p:V1:VectorVar3:0, q:V2:VectorVar3:1];
    R2V2V1, 2, 3, "V2,V1", [p:V1:VectorVar2:0, q:V2:VectorVar1:1];
    R2V1V3, 2, 4, "V1,V3", [p:V1:VectorVar1:0, q:V2:VectorVar3:1];
    R2V2V3, 2, 5, "V2,V3", [p:V1:VectorVar2:0, q:V2:VectorVar3:1];
    R2Se2Se2, 2, 6, "SE2,SE2", [p:V1:SE2:0, q:V2:SE2:1];
    R2Se2V2, 2, 5, "SE2,V2", [p:V1:SE2:0, q:V2:VectorVar2:1];
    R2So2Se2, 2, 4, "SO2,SE2", [p:V1:SO2:0, q:V2:SE2:1];
    R2Se3V3, 2, 9, "SE3,V3", [p:V1:SE3:0, q:V2:VectorVar3:1];
    R3V1Se2So3, 3, 7, "V1,SE2,SO3", [p:V1:VectorVar1:0, q:V2:SE2:1, t:V3:SO3:2];
    R3V2V1V3, 3, 6, "V2,V1,V3", [p:V1:VectorVar2:0, q:V2:VectorVar1:1, t:V3:VectorVar3:2];
    R4, 4, 8, "SO2,V3,SE2,V1", [p:V1:SO2:0, q:V2:VectorVar3:1, t:V3:SE2:2, u:V4:VectorVar1:3];
    R5, 5, 15, "SO2,SE2,SO3,SE3,V2", [p:V1:SO2:0, q:V2:SE2:1, t:V3:SO3:2, u:V4:SE3:3, v:V5:VectorVar2:4];
    R5V, 5, 15, "V1,V2,V3,V4,V5", [p:V1:VectorVar1:0, q:V2:VectorVar2:1, t:V3:VectorVar3:2, u:V4:VectorVar4:3, v:V5:VectorVar5:4];
    R6, 6, 16, "V6,SO3,V1,SE2,SO2,V2", [p:V1:VectorVar6:0, q:V2:SO3:1, t:V3:VectorVar1:2, u:V4:SE2:3, v:V5:SO2:4, w:V6:VectorVar2:5];
    R6I, 6, 30, "SE3,V3,BIAS,SE3,V3,BIAS", [p:V1:SE3:0, q:V2:VectorVar3:1, t:V3:ImuBias:2, u:V4:SE3:3, v:V5:VectorVar3:4, w:V6:ImuBias:5];
}

fn build<const N: usize>(b: FactorBuilder<N>, j: &J) -> Factor {
    let (n, k) = (j.get("noise"), j.get("kernel"));
    // what was set before is replaced
    let b = if j.opt("redo").is_some_and(|x| x.bool()) {
        let b = if n.get("n").str() == "none" { b } else { b.noise(GaussianNoise::<N>::from_scalar_sigma(7.0)) };
        if k.get("n").str() == "none" { b } else { b.robust(Cauchy::new(0.3)) }
    } else {
        b
    };
    // the order in which noise and kernel are set must not matter
    if j.opt("swap").is_some_and(|x| x.bool()) {
        with_noise(with_robust(b, k), n).build()
    } else {
        with_robust(with_noise(b, n), k).build()
    }
}

#[macro_export]
macro_rules! with_kind_n {
    ($k:expr, $T:ident, $N:ident => $e:expr) => {{
        use $crate::vars::*;
        match $k {
            "SO2" => { type $T = SO2; const $N: usize = 1; $e }
            "SE2" => { type $T = SE2; const $N: usize = 3; $e }
            "SO3" => { type $T = SO3; const $N: usize = 3; $e }
            "SE3" => { type $T = SE3; const $N: usize = 6; $e }
            "V1" => { type $T = VectorVar1; const $N: usize = 1; $e }
            "V2" => { type $T = VectorVar2; const $N: usize = 2; $e }
            "V3" => { type $T = VectorVar3; const $N: usize = 3; $e }
            "V4" => { type $T = VectorVar4; const $N: usize = 4; $e }
            "V5" => { type $T = VectorVar5; const $N: usize = 5; $e }
            "V6" => { type $T = VectorVar6; const $N: usize = 6; $e }
            "V9" => { type $T = VectorVar9; const $N: usize = 9; $e }
            "BIAS" => { type $T = ImuBias; const $N: usize = 6; $e }
            other => panic!("HARNESS: kind {other}"),
        }
    }};
}

/// the factor described by j = {res, keys, noise, kernel}
pub fn factor(j: &J) -> Factor {
    let (r, keys) = (j.get("res"), j.get("keys"));
    match r.get("r").str() {
        "prior" => with_kind_n!(r.get("kind").str(), T, N => build(
            FactorBuilder::<N>::new1_unchecked(PriorResidual::<T>::new(T::make(&r.get("z").fv())), sym(keys.at(0))), j)),
        "between" => with_kind_n!(r.get("kind").str(), T, N => build(
            FactorBuilder::<N>::new2_unchecked(BetweenResidual::<T>::new(T::make(&r.get("z").fv())), sym(keys.at(0)), sym(keys.at(1))), j)),
        "comb" => comb_factor(j),
        o => panic!("HARNESS: residual {o}"),
    }
}
/// its residual alone
pub fn residual(r: &J) -> Box<dyn Residual> {
    match r.get("r").str() {
        "prior" => crate::with_kind!(r.get("kind").str(), T => Box::new(PriorResidual::<T>::new(T::make(&r.get("z").fv())))),
        "between" => crate::with_kind!(r.get("kind").str(), T => Box::new(BetweenResidual::<T>::new(T::make(&r.get("z").fv())))),
        "comb" => comb_res(r),
        o => panic!("HARNESS: residual {o}"),
    }
}
pub fn graph(j: &J) -> Graph {
    let mut g = Graph::new();
    for f in j.arr() {
        g.add_factor(factor(f));
    }
    g
}
pub fn jac_of(d: DiffResult<VectorX, MatrixX>) -> (J, J) {
    (jv(d.value.iter()), crate::jm!(d.diff))
}
