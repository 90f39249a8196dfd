//! A minimal JSON value. Doubles are written as strings "#<shortest round-trip decimal>".
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    F(f64),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
use J::*;

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            I(i) => write!(f, "{i}"),
            F(x) => write!(f, "\"#{x:?}\""),
            B(b) => write!(f, "{b}"),
            S(s) => write!(f, "\"{}\"", s.replace('\\', "/").replace('"', "'")),
            A(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{x}")?;
                }
                write!(f, "]")
            }
            O(v) => {
                write!(f, "{{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "\"{k}\":{x}")?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub fn s(x: &str) -> J {
    S(x.to_string())
}
pub fn u(x: usize) -> J {
    I(x as i64)
}
pub fn fv(v: &[f64]) -> J {
    A(v.iter().map(|&x| F(x)).collect())
}
pub fn fvv(v: &[Vec<f64>]) -> J {
    A(v.iter().map(|x| fv(x)).collect())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            O(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| panic!("no field {k} in {self}"))
    }
    pub fn set(&mut self, k: &str, x: J) {
        if let O(v) = self {
            match v.iter_mut().find(|(n, _)| n == k) {
                Some(e) => e.1 = x,
                None => v.push((k.to_string(), x)),
            }
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            I(i) => *i,
            _ => panic!("not an integer: {self}"),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn bool(&self) -> bool {
        match self {
            B(b) => *b,
            _ => panic!("not a boolean: {self}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            S(x) => x,
            _ => panic!("not a string: {self}"),
        }
    }
    /// A double, or a rational `[n, d]` of the specification
    pub fn f(&self) -> f64 {
        match self {
            F(x) => *x,
            I(i) => *i as f64,
            A(v) if v.len() == 2 => v[0].int() as f64 / v[1].int() as f64,
            _ => panic!("not a number: {self}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            A(v) => v,
            _ => panic!("not an array: {self}"),
        }
    }
    pub fn fs(&self) -> Vec<f64> {
        self.arr().iter().map(|x| x.f()).collect()
    }
    pub fn fss(&self) -> Vec<Vec<f64>> {
        self.arr().iter().map(|x| x.fs()).collect()
    }
}

pub fn parse(t: &str) -> J {
    let b = t.as_bytes();
    let mut i = 0;
    value(b, &mut i)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i] <= b' ' {
        *i += 1;
    }
}
fn string(b: &[u8], i: &mut usize) -> String {
    *i += 1;
    let st = *i;
    while b[*i] != b'"' {
        *i += 1;
    }
    let r = String::from_utf8_lossy(&b[st..*i]).to_string();
    *i += 1;
    r
}
fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return O(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = string(b, i);
                ws(b, i);
                *i += 1;
                v.push((k, value(b, i)));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return A(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(value(b, i));
            }
        }
        b'"' => {
            let t = string(b, i);
            match t.strip_prefix('#') {
                Some(x) => F(x.parse().unwrap()),
                None => S(t),
            }
        }
        b't' => {
            *i += 4;
            B(true)
        }
        b'f' => {
            *i += 5;
            B(false)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            I(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}
