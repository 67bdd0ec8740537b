//! Histories of operations on Values.  A variable of kind T with "value" v is T::make(raw_of(T, v)).
use crate::{json::*, kinds::*, obj, Rec};
use factrs::{
    containers::{DefaultSymbol, Key, Symbol, TypedSymbol, Values},
    traits::*,
};
use crate::vars::*;

mod sy {
    use crate::vars::*;
    use factrs::assign_symbols;
    assign_symbols!(
        X: VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, VectorVar9, SO2, SE2, SO3, SE3, ImuBias;
        L: VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, VectorVar9, SO2, SE2, SO3, SE3, ImuBias;
        A: VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, VectorVar9, SO2, SE2, SO3, SE3, ImuBias
    );
}
/// a user's own symbol: the key itself
#[derive(Debug, Clone, Copy)]
pub struct Raw(pub u64);
impl From<Raw> for Key {
    fn from(r: Raw) -> Key {
        Key(r.0)
    }
}
impl Symbol for Raw {}
impl<V: VariableUmbrella> TypedSymbol<V> for Raw {}
const KINDS: [&str; 12] = ["SO2", "SE2", "SO3", "SE3", "V1", "V2", "V3", "V4", "V5", "V6", "V9", "BIAS"];
const KEYS: [&str; 12] = ["x1", "x2", "l1", "a7", "x0", "l0", "a0", "x3", "l9", "a3", "x40", "l2"];
const VALS: usize = 6;

fn raw_of(kind: &str, v: usize) -> Vec<f64> {
    let t = 0.4 * v as f64;
    let q = [0.0, (t / 2.0).sin(), 0.0, (t / 2.0).cos()];
    match kind {
        "SO2" => vec![t.cos(), t.sin()],
        "SE2" => vec![t.cos(), t.sin(), v as f64, -(v as f64)],
        "SO3" => q.to_vec(),
        "SE3" => q.iter().copied().chain([v as f64, 2.0 * v as f64, 0.5]).collect(),
        "BIAS" => (0..6).map(|i| v as f64 + 0.1 * i as f64).collect(),
        k => (0..k[1..].parse::<usize>().unwrap()).map(|i| v as f64 - 0.25 * i as f64).collect(),
    }
}
fn mk<T: Kind>(v: usize) -> T {
    T::make(&raw_of(T::NAME, v))
}
/// which value a variable has (-1: none that was ever stored)
fn val_of<T: Kind>(x: &T) -> J {
    let got = x.raw();
    J::Int((1..=VALS).find(|v| mk::<T>(*v).raw() == got).map_or(-1, |v| v as i64))
}
/// [kind, value] of a boxed variable
#[allow(clippy::borrowed_box)]
fn slot(x: &Box<dyn VariableSafe>) -> Vec<J> {
    for k in KINDS {
        let r = crate::with_kind!(k, T => x.downcast_ref::<T>().map(val_of));
        if let Some(v) = r {
            return vec![s(k), v];
        }
    }
    vec![s("?"), J::Int(-1)]
}
fn key_of(n: &str) -> Key {
    if let Some(no) = n.strip_prefix('#') {
        return Key(no.parse().unwrap());
    }
    DefaultSymbol::new(n.chars().next().unwrap(), n[1..].parse().unwrap()).into()
}
fn name_of(keys: &[&str], k: &Key) -> J {
    s(keys.iter().find(|n| key_of(n) == *k).unwrap_or(&"?"))
}
fn entry_json(keys: &[&str], k: &Key, x: &Box<dyn VariableSafe>) -> J {
    let mut e = vec![name_of(keys, k)];
    e.extend(slot(x));
    J::Arr(e)
}
fn snap(keys: &[&str], v: &Values) -> J {
    let mut get = vec![];
    for n in keys {
        for k in KINDS {
            let r = crate::with_kind!(k, T => v.get_unchecked::<Key, T>(key_of(n)).map(val_of));
            if let Some(x) = r {
                get.push(J::Arr(vec![s(n), s(k), x]));
            }
        }
    }
    obj! {"len": int(v.len()), "empty": J::Bool(v.is_empty()), "iter": J::Arr(v.iter().map(|(k, x)| entry_json(keys, k, x)).collect()), "get": J::Arr(get)}
}
fn opt(x: Option<J>) -> J {
    J::Arr(x.into_iter().collect())
}

macro_rules! typed {
    ($k:expr, $s:ident => $e:expr) => {{
        let (name, no): (&str, u64) = ($k, $k[1..].parse().unwrap());
        match &name[..1] {
            "#" => { let $s = || Raw(no); $e }
            "x" => { let $s = || sy::X(no); $e }
            "l" => { let $s = || sy::L(no); $e }
            _ => { let $s = || sy::A(no); $e }
        }
    }};
}

pub fn history(scn: &J, rec: &Rec) {
    let mut hs = [Values::new(), Values::new()];
    let keys: Vec<&str> = scn.opt("keys").map_or(KEYS.to_vec(), |k| k.arr().iter().map(|x| x.str()).collect());
    for op in scn.get("ops").arr() {
        let h = op.get("h").us() - 1;
        let k = op.opt("k").map_or("", |x| x.str());
        let t = op.opt("t").map_or("V1", |x| x.str());
        let v = op.opt("v").map_or(1, |x| x.us());
        let api = op.opt("api").map_or("", |x| x.str());
        let key = || key_of(k);
        let vs = &mut hs[h];
        let r = match op.get("o").str() {
            "ins" => {
                let prev = if api == "insert" {
                    crate::with_kind!(t, T => typed!(k, sy => vs.insert(sy(), mk::<T>(v))))
                } else {
                    crate::with_kind!(t, T => vs.insert_unchecked(key(), mk::<T>(v)))
                };
                J::Arr(prev.map_or(vec![], |b| slot(&b)))
            }
            "get" => opt(crate::with_kind!(t, T => match api {
                "get" => typed!(k, sy => vs.get::<_, T>(sy()).map(val_of)),
                "get_unchecked" => vs.get_unchecked::<_, T>(key()).map(val_of),
                "get_mut" => typed!(k, sy => vs.get_mut::<_, T>(sy()).map(|x| val_of(&*x))),
                _ => vs.get_unchecked_mut::<_, T>(key()).map(|x| val_of(&*x)),
            })),
            "mut" => opt(crate::with_kind!(t, T => {
                let x = match api {
                    "get_mut" => typed!(k, sy => vs.get_mut::<_, T>(sy())),
                    _ => vs.get_unchecked_mut::<_, T>(key()),
                };
                x.map(|x| { let old = val_of(&*x); *x = mk::<T>(v); old })
            })),
            "rem" => opt(crate::with_kind!(t, T => typed!(k, sy => vs.remove::<_, T>(sy()).map(|x| val_of(&x))))),
            "entry_or" => J::Arr(slot(vs.entry(key()).or_insert_with(|| crate::with_kind!(t, T => Box::new(mk::<T>(v)) as Box<dyn VariableSafe>)))),
            "entry_mod" => {
                let mut hit = false;
                let _ = vs.entry(key()).and_modify(|b| {
                    hit = true;
                    crate::with_kind!(t, T => if let Some(x) = b.downcast_mut::<T>() { *x = mk::<T>(v) })
                });
                J::Arr(vec![J::Bool(hit)])
            }
            "entry_rem" => match vs.entry(key()) {
                std::collections::hash_map::Entry::Occupied(e) => J::Arr(slot(&e.remove())),
                _ => J::Arr(vec![]),
            },
            "filter" => {
                let all: Vec<J> = crate::with_kind!(t, T => vs.filter::<T>().map(val_of).collect());
                // <<value, how often>>
                let n = |v: i64| all.iter().filter(|x| x.int() == v).count();
                J::Arr((-1..=VALS as i64).filter(|v| n(*v) > 0).map(|v| J::Arr(vec![J::Int(v), int(n(v))])).collect())
            }
            "clone" => {
                let c = vs.clone();
                hs[1 - h] = c;
                J::Arr(vec![])
            }
            "into" => {
                let taken = std::mem::take(vs);
                J::Arr(taken.into_iter().map(|(k, x)| entry_json(&keys, &k, &x)).collect())
            }
            "fresh" => {
                *vs = if v == 1 { Values::new() } else { Values::default() };
                J::Arr(vec![])
            }
            o => panic!("HARNESS: op {o}"),
        };
        rec.ev(obj! {"e": s("op"), "r": r, "snap": J::Arr(vec![snap(&keys, &hs[0]), snap(&keys, &hs[1])])});
    }
}
