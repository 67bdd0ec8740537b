//! Containers: orderings, linear values, Values.
use crate::{guarded, json::*, kinds::*, obj, probs::*, Rec};
use factrs::{
    containers::{Idx, Key, ValuesOrder},
    linear::LinearValues,
};

fn outcome<T>(x: Result<T, String>) -> (J, Option<T>) {
    match x {
        Ok(v) => (s("ok"), Some(v)),
        Err(m) if m.starts_with("HARNESS") => panic!("{m}"),
        Err(_) => (s("panic"), None),
    }
}

pub fn linear_containers(scn: &J, rec: &Rec) {
    let vars = scn.get("vars");
    let keys: Vec<Key> = vars.arr().iter().map(|x| key(x.get("key"))).collect();
    let absent = key(scn.get("extra").at(0).get("key"));
    let mut asked = keys.clone();
    asked.push(absent);
    let mut v = values(vars);
    let order = ValuesOrder::from_values(&v);
    let at = |o: &ValuesOrder| {
        J::Arr(asked.iter().map(|k| match o.get(*k) {
            Some(Idx { idx, dim }) => J::Arr(vec![int(*idx), int(*dim)]),
            None => J::Arr(vec![]),
        }).collect())
    };
    let iterok = order.iter().all(|(k, i)| order.get(*k).map_or(false, |x| x.idx == i.idx && x.dim == i.dim));
    rec.ev(obj! {"e": s("order"), "at": at(&order), "dim": int(order.dim()), "len": int(order.len()), "empty": J::Bool(order.is_empty()),
                 "iter": J::Arr(order.iter().map(|(k, _)| int(key_no(&keys, k))).collect()), "iterok": J::Bool(iterok)});
    let mut vec: Vec<f64> = scn.get("vec").fv();
    let off = scn.get("off").int();
    let full = vec.clone();
    if off < 0 {
        if vec.pop().is_none() {
            vec.push(0.0)
        }
    } else {
        vec.extend(std::iter::repeat(0.5).take(off as usize));
    }
    for via in ["zero_order", "zero_values", "order_vec", "values_vec"] {
        let _ = &full;
        let (out, lv) = outcome(guarded(|| match via {
            "zero_order" => LinearValues::zero_from_order(order.clone()),
            "zero_values" => LinearValues::zero_from_values(&v),
            "order_vec" => LinearValues::from_order_and_vector(order.clone(), vx(&vec)),
            _ => LinearValues::from_values_and_vector(&v, vx(&vec)),
        }));
        let mut ev = vec![("e".to_string(), s("linear")), ("via".into(), s(via)), ("out".into(), out), ("off".into(), J::Int(off))];
        if let Some(lv) = lv {
            ev.push(("dim".into(), int(lv.dim())));
            ev.push(("len".into(), int(lv.len())));
            ev.push(("empty".into(), J::Bool(lv.is_empty())));
            ev.push(("get".into(), J::Arr(asked.iter().map(|k| lv.get(*k).map_or(J::Arr(vec![]), |x| jv(x.iter()))).collect())));
            ev.push(("iter".into(), J::Arr(lv.iter().map(|(k, _)| int(key_no(&keys, k))).collect())));
            ev.push(("iterok".into(), J::Bool(lv.iter().all(|(k, x)| lv.get(*k).map_or(false, |y| x == y)))));
        }
        rec.ev(J::Obj(ev));
    }
    let all: Vec<J> = vars.arr().iter().chain(scn.get("extra").arr()).cloned().collect();
    for st in scn.get("steps").arr() {
        let before = read_all(&v, vars);
        let mut map: ahash::HashMap<Key, Idx> = Default::default();
        let mut flat = vec![];
        for ((i, d), sl) in st.get("take").arr().iter().zip(st.get("dims").arr()).zip(st.get("d").arr()) {
            map.insert(key(all[i.us() - 1].get("key")), Idx { idx: flat.len(), dim: d.us() });
            flat.extend(sl.fv());
        }
        let delta = LinearValues::from_order_and_vector(ValuesOrder::new(map), vx(&flat));
        let (out, _) = outcome(guarded(|| v.oplus_mut(&delta)));
        rec.ev(obj! {"e": s("oplus"), "out": out, "len": int(v.len()), "before": before, "vals": read_all(&v, vars)});
    }
}
