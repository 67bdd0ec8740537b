//! Linear solvers: one instance of each over a history of systems.
use crate::{guarded, json::*, kinds::D, obj, Rec};
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use faer::{sparse::{SparseColMat, SymbolicSparseColMat}, Mat};

pub fn history(scn: &J, rec: &Rec) {
    let (mut chol, mut qr, mut lu) = (CholeskySolver::default(), QRSolver::default(), LUSolver::default());
    let (mut chol2, mut qr2, mut lu2) = (CholeskySolver::default(), QRSolver::default(), LUSolver::default());
    // the same matrix, stored without counts per column
    fn packed(a: &SparseColMat<usize, D>) -> SparseColMat<usize, D> {
        let (mut ptrs, mut rows, mut vals) = (vec![0], vec![], vec![]);
        for j in 0..a.ncols() {
            rows.extend(a.row_indices_of_col(j));
            vals.extend(a.values_of_col(j).iter().copied());
            ptrs.push(rows.len());
        }
        SparseColMat::new(SymbolicSparseColMat::new_checked(a.nrows(), a.ncols(), ptrs, None, rows), vals)
    }
    fn one<S: LinearSolver>(sv: &mut S, op: &str, a: &SparseColMat<usize, D>, b: &Mat<D>) -> J {
        let x = guarded(|| match op {
            "lsq" => sv.solve_lst_sq(a.as_ref(), b.as_ref()),
            _ => sv.solve_symmetric(a.as_ref(), b.as_ref()),
        });
        match x {
            Ok(x) => obj! {"out": s("ok"), "x": J::Arr((0..x.nrows()).map(|i| J::Arr((0..x.ncols()).map(|j| r(x.read(i, j) as f64)).collect())).collect())},
            Err(_) => obj! {"out": s("panic"), "x": J::Arr(vec![])},
        }
    }
    for q in scn.get("sys").arr() {
        let tr: Vec<(usize, usize, D)> = q.get("tr").arr().iter().map(|t| (t.at(0).us() - 1, t.at(1).us() - 1, t.at(2).f() as D)).collect();
        let a = SparseColMat::try_new_from_triplets(q.get("m").us(), q.get("n").us(), &tr).expect("HARNESS: triplets");
        let bm = q.get("b").fm();
        let b = Mat::from_fn(bm.len(), bm[0].len(), |i, j| bm[i][j] as D);
        let op = q.get("op").str();
        let p = packed(&a);
        rec.ev(obj! {"e": s("solve"), "ans": J::Arr(vec![one(&mut chol, op, &a, &b), one(&mut qr, op, &a, &b), one(&mut lu, op, &a, &b),
            one(&mut chol2, op, &p, &b), one(&mut qr2, op, &p, &b), one(&mut lu2, op, &p, &b)])});
    }
}
