//! Terms exchanged with TLC: integers, strings and lists, written as JSON.
//! Nothing here uses the crate under test.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Term {
    I(i64),
    S(String),
    L(Vec<Term>),
}

pub fn s(x: &str) -> Term {
    Term::S(x.to_string())
}
pub fn i(x: i64) -> Term {
    Term::I(x)
}
pub fn tag(t: &str, rest: Vec<Term>) -> Term {
    let mut v = Vec::with_capacity(rest.len() + 1);
    v.push(s(t));
    v.extend(rest);
    Term::L(v)
}
pub fn bytes(b: &[u8]) -> Term {
    Term::L(b.iter().map(|x| Term::I(*x as i64)).collect())
}
/// Decimal digits of a natural number; zero is the empty list.
pub fn digits(n: u64) -> Term {
    if n == 0 {
        return Term::L(vec![]);
    }
    Term::L(format!("{}", n).bytes().map(|b| Term::I((b - b'0') as i64)).collect())
}

impl Term {
    pub fn write(&self, out: &mut String) {
        match self {
            Term::I(n) => {
                let _ = write!(out, "{}", n);
            }
            Term::S(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            Term::L(v) => {
                out.push('[');
                for (k, t) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    t.write(out);
                }
                out.push(']');
            }
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    pub fn list(&self) -> &[Term] {
        match self {
            Term::L(v) => v,
            _ => panic!("list expected in case file: {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            Term::I(n) => *n,
            _ => panic!("int expected in case file: {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            Term::S(n) => n,
            _ => panic!("string expected in case file: {:?}", self),
        }
    }
    pub fn as_bytes(&self) -> Vec<u8> {
        self.list().iter().map(|t| t.int() as u8).collect()
    }
}

/// Parse one term (JSON arrays, integers, strings without unicode escapes).
pub fn parse(src: &str) -> Term {
    let b = src.as_bytes();
    let mut p = 0;
    fn ws(b: &[u8], p: &mut usize) {
        while *p < b.len() && (b[*p] == b' ' || b[*p] == b'\n') {
            *p += 1;
        }
    }
    fn go(b: &[u8], p: &mut usize) -> Term {
        ws(b, p);
        match b[*p] {
            b'[' => {
                *p += 1;
                let mut v = vec![];
                loop {
                    ws(b, p);
                    if b[*p] == b']' {
                        *p += 1;
                        return Term::L(v);
                    }
                    if b[*p] == b',' {
                        *p += 1;
                    }
                    v.push(go(b, p));
                }
            }
            b'"' => {
                *p += 1;
                let mut o = vec![];
                while b[*p] != b'"' {
                    if b[*p] == b'\\' {
                        *p += 1;
                    }
                    o.push(b[*p]);
                    *p += 1;
                }
                *p += 1;
                Term::S(String::from_utf8(o).unwrap())
            }
            _ => {
                let st = *p;
                while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                    *p += 1;
                }
                Term::I(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap_or_else(|_| panic!("bad case file at {}: {}", st, String::from_utf8_lossy(b))))
            }
        }
    }
    go(b, &mut p)
}
