//! g2o files written to the scratch directory and loaded.
use crate::{json::*, kinds::*, probs::*, Rec, obj};
use factrs::{containers::{Graph, Values}, linalg::DiffResult, utils::load_g20};
use std::sync::atomic::{AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);

fn num(x: f64, style: &str) -> String {
    if style == "exp" { format!("{x:e}") } else { format!("{x}") }
}
/// writes the described file and loads it
pub fn loaded(scn: &J) -> (Graph, Values) {
    let style = scn.get("style").str();
    let tag = if scn.get("kind").str() == "SE2" { "SE2" } else { "SE3:QUAT" };
    let nums = |j: &J| j.fv().iter().map(|x| num(*x, style)).collect::<Vec<_>>().join(" ");
    let mut lines = vec![];
    for l in scn.get("lines").arr() {
        let t = match l.get("k").str() {
            "vertex" => format!("VERTEX_{tag} {} {}", l.get("id").us(), nums(l.get("v"))),
            "edge" => format!("EDGE_{tag} {} {} {} {}", l.get("a").us(), l.get("b").us(), nums(l.get("v")), nums(l.get("inf"))),
            _ => l.get("text").str().to_string(),
        };
        lines.push(match style {
            "trail" => t + " ",
            "double" => t.replace(' ', "  "),
            "tabs" => t.replace(' ', "\t"),
            "lead" => format!("  {t}"),
            _ => t,
        });
    }
    let eol = if style == "crlf" { "\r\n" } else { "\n" };
    let mut text = lines.join(eol);
    if style != "nonl" && !lines.is_empty() {
        text += eol;
    }
    let dir = std::env::var("SCRATCH").expect("HARNESS: SCRATCH");
    let path = format!("{dir}/f{}.g2o", N.fetch_add(1, Ordering::SeqCst));
    std::fs::write(&path, text).expect("HARNESS: write");
    let res = load_g20(&path);
    let _ = std::fs::remove_file(&path);
    res
}
pub fn load(scn: &J, rec: &Rec) {
    let (graph, vals) = loaded(scn);
    let vars = scn.get("vars");
    let probe = values(vars);
    let order = order_of(scn.get("order"), vars);
    let go = graph.sparsity_pattern(order);
    let lin = graph.linearize(&probe);
    let DiffResult { value, diff } = lin.residual_jacobian(&go);
    let dense = diff.to_dense();
    rec.ev(obj! {"e": s("loaded"), "nvals": int(vals.len()), "vals": read_all(&vals, vars), "nfac": int(graph.len()), "err": r(graph.error(&probe) as f64),
                 "b": J::Arr((0..value.nrows()).map(|i| r(value.read(i, 0) as f64)).collect()),
                 "a": J::Arr((0..dense.nrows()).map(|i| J::Arr((0..dense.ncols()).map(|j| r(dense.read(i, j) as f64)).collect())).collect())});
}
