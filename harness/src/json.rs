//! Minimal JSON: scenarios in, traces out.  Reals travel as [hi, lo], the 32-bit halves of an IEEE double.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        self.opt(k).unwrap_or_else(|| panic!("scenario field {k} missing in {self:?}"))
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x),
            _ => None,
        }
    }
    /// the object with one field set
    pub fn with(&self, k: &str, x: J) -> J {
        match self {
            J::Obj(v) => {
                let mut v: Vec<_> = v.iter().filter(|(n, _)| n != k).cloned().collect();
                v.push((k.to_string(), x));
                J::Obj(v)
            }
            _ => panic!("not an object: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn at(&self, i: usize) -> &J {
        &self.arr()[i]
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("not an int: {self:?}"),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("not a bool: {self:?}"),
        }
    }
    /// a real
    pub fn f(&self) -> f64 {
        let a = self.arr();
        let hi = a[0].int() as i32 as u32 as u64;
        let lo = a[1].int() as i32 as u32 as u64;
        f64::from_bits((hi << 32) | lo)
    }
    pub fn fv(&self) -> Vec<f64> {
        self.arr().iter().map(|x| x.f()).collect()
    }
    pub fn fm(&self) -> Vec<Vec<f64>> {
        self.arr().iter().map(|x| x.fv()).collect()
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' | '\\' => {
                            o.push('\\');
                            o.push(c)
                        }
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c if (c as u32) < 0x7f => o.push(c),
                        c => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                write!(o, "\\u{:04x}", u).unwrap()
                            }
                        }
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> J {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        value(&b, &mut i)
    }
}

fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1
    }
}
fn value(b: &[char], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == '}' {
                    *i += 1;
                    return J::Obj(v);
                }
                if b[*i] == ',' {
                    *i += 1;
                    continue;
                }
                let k = match value(b, i) {
                    J::Str(s) => s,
                    _ => panic!("json key"),
                };
                ws(b, i);
                assert!(b[*i] == ':');
                *i += 1;
                v.push((k, value(b, i)));
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == ']' {
                    *i += 1;
                    return J::Arr(v);
                }
                if b[*i] == ',' {
                    *i += 1;
                    continue;
                }
                v.push(value(b, i));
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            while b[*i] != '"' {
                if b[*i] == '\\' {
                    *i += 1;
                    match b[*i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        'u' => {
                            let h: String = b[*i + 1..*i + 5].iter().collect();
                            s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap_or('?'));
                            *i += 4;
                        }
                        c => s.push(c),
                    }
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            J::Str(s)
        }
        't' => {
            *i += 4;
            J::Bool(true)
        }
        'f' => {
            *i += 5;
            J::Bool(false)
        }
        'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == '-' || b[*i] == '+' || b[*i].is_ascii_digit()) {
                *i += 1
            }
            let t: String = b[st..*i].iter().collect();
            J::Int(t.parse().unwrap_or_else(|_| panic!("json int {t}")))
        }
    }
}

pub fn r(x: f64) -> J {
    let x = if x == 0.0 { 0.0 } else { x };
    let b = x.to_bits();
    J::Arr(vec![J::Int((b >> 32) as u32 as i32 as i64), J::Int(b as u32 as i32 as i64)])
}
pub fn rv<'a, T: Copy + Into<f64> + 'a>(v: impl IntoIterator<Item = &'a T>) -> J {
    J::Arr(v.into_iter().map(|x| r((*x).into())).collect())
}
pub fn rm(m: &[Vec<f64>]) -> J {
    J::Arr(m.iter().map(|x| rv(x.iter())).collect())
}
pub fn ints(v: &[usize]) -> J {
    J::Arr(v.iter().map(|x| J::Int(*x as i64)).collect())
}
pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn int(x: usize) -> J {
    J::Int(x as i64)
}
#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $v)),*]) };
}
