//! Keys and symbols.
use crate::{json::*, obj, Rec};
use factrs::{
    containers::{DefaultSymbol, Key, Values},
    variables::VectorVar1,
};

fn idx(j: &J) -> u64 {
    j.arr().iter().fold(0, |a, d| 10 * a + d.us() as u64)
}
fn kj(k: Key) -> J {
    J::Arr(vec![J::Int((k.0 >> 32) as u32 as i32 as i64), J::Int(k.0 as u32 as i32 as i64)])
}
fn text(t: &str) -> J {
    J::Arr(t.chars().map(|c| J::Int(c as i64)).collect())
}
fn chr(j: &J) -> char {
    char::from_u32(j.get("ch").us() as u32).expect("HARNESS: not a character")
}

mod my {
    use factrs::assign_symbols;
    use factrs::variables::*;
    #[allow(uncommon_codepoints, non_camel_case_types)]
    mod inner {
        use super::*;
        assign_symbols!(A: SO2; X: SE2, SE3; Z: VectorVar1; Lm: VectorVar2; POSE: SE3; velocityA: VectorVar3; Bias2: ImuBias; Δelta: VectorVar2; École: SO3);
        assign_symbols!(中);
    }
    pub use inner::*;
}

pub fn symbols(scn: &J, rec: &Rec) {
    let (mut keys, mut again, mut back, mut shown, mut round) = (vec![], vec![], vec![], vec![], vec![]);
    for y in scn.get("syms").arr() {
        let i = idx(y.get("idx"));
        // (key, key again, debug of the symbol itself)
        macro_rules! with { ($s:expr) => {{ let k: Key = $s.into(); let k2: Key = $s.into(); (k, k2, format!("{:?}", $s)) }}; }
        let (k, k2, dbg) = if scn.get("t").str() == "keys" {
            with!(DefaultSymbol::new(chr(y), i))
        } else {
            macro_rules! table { ($($n:literal => $s:path),* $(,)?) => { match y.get("n").str() { $($n => with!($s(i)),)* o => panic!("HARNESS: symbol type {o}") } }; }
            use factrs::symbols as f;
            table!("A" => f::A, "B" => f::B, "C" => f::C, "D" => f::D, "E" => f::E, "F" => f::F, "G" => f::G, "H" => f::H, "I" => f::I, "J" => f::J, "K" => f::K,
                   "L" => f::L, "M" => f::M, "N" => f::N, "O" => f::O, "P" => f::P, "Q" => f::Q, "R" => f::R, "S" => f::S, "T" => f::T, "U" => f::U, "V" => f::V,
                   "W" => f::W, "X" => f::X, "Y" => f::Y, "Z" => f::Z, "my.A" => my::A, "my.X" => my::X, "my.Z" => my::Z, "my.Lm" => my::Lm, "my.POSE" => my::POSE,
                   "my.velocityA" => my::velocityA, "my.Bias2" => my::Bias2, "my.Delta" => my::Δelta, "my.Eacute" => my::École, "my.Zhong" => my::中)
        };
        keys.push(kj(k));
        again.push(kj(k2));
        back.push(text(&format!("{:?}", DefaultSymbol::from(k))));
        shown.push(text(&dbg));
        round.push(kj(Key::from(DefaultSymbol::from(k))));
    }
    rec.ev(obj! {"e": s("keys"), "keys": J::Arr(keys), "again": J::Arr(again), "back": J::Arr(back), "shown": J::Arr(shown), "round": J::Arr(round)});
}

pub fn show(scn: &J, rec: &Rec) {
    let mut v = Values::new();
    for y in scn.get("syms").arr() {
        v.insert_unchecked(DefaultSymbol::new(chr(y), idx(y.get("idx"))), VectorVar1::new(0.5));
    }
    let count = |t: String| J::Arr(scn.get("syms").arr().iter().map(|y| int(t.matches(&format!("({}, {})", chr(y), idx(y.get("idx")))).count())).collect());
    rec.ev(obj! {"e": s("show"), "plain": count(format!("{v}")), "pretty": count(format!("{v:#}")), "debug": count(format!("{v:?}"))});
}

pub fn sweep(scn: &J, rec: &Rec) {
    let (from, n, i) = (scn.get("from").us() as u32, scn.get("n").us() as u32, idx(scn.get("idx")));
    let mut chars = vec![];
    let mut idxs: Vec<String> = vec![];
    for c in (from..from + n).filter_map(char::from_u32) {
        let t = format!("{:?}", DefaultSymbol::from(Key::from(DefaultSymbol::new(c, i))));
        let got = t.chars().nth(1).unwrap_or('\0');
        chars.push(J::Int(got as i64));
        let rest: String = t.chars().skip(4).take_while(|x| x.is_ascii_digit()).collect();
        if !idxs.contains(&rest) && idxs.len() < 5 {
            idxs.push(rest);
        }
    }
    rec.ev(obj! {"e": s("sweep"), "chars": J::Arr(chars), "idx": J::Arr(idxs.iter().map(|x| text(x)).collect())});
}
