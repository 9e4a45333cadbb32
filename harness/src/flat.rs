//! Untyped values as flat token sequences (pre-order), written without recursion.
use crate::flt::f64_term;
use crate::term::{bytes, digits, i, tag, Term};
use miniserde::json::{Number, Value};

pub fn number(n: &Number) -> Term {
    match n {
        Number::U64(n) => tag("u", vec![digits(*n)]),
        Number::I64(n) => tag("i", vec![i((*n < 0) as i64), digits(n.unsigned_abs())]),
        Number::F64(f) => f64_term(*f),
    }
}

pub fn value(v: &Value, out: &mut Vec<Term>) {
    enum W<'a> {
        V(&'a Value),
        K(&'a str),
    }
    let mut st = vec![W::V(v)];
    while let Some(w) = st.pop() {
        match w {
            W::K(k) => out.push(tag("k", vec![bytes(k.as_bytes())])),
            W::V(Value::Null) => out.push(tag("null", vec![])),
            W::V(Value::Bool(b)) => out.push(tag("b", vec![i(*b as i64)])),
            W::V(Value::Number(n)) => out.push(number(n)),
            W::V(Value::String(x)) => out.push(tag("s", vec![bytes(x.as_bytes())])),
            W::V(Value::Array(a)) => {
                out.push(tag("a", vec![i(a.len() as i64)]));
                for x in a.iter().rev() {
                    st.push(W::V(x));
                }
            }
            W::V(Value::Object(o)) => {
                out.push(tag("o", vec![i(o.len() as i64)]));
                for (k, x) in o.iter().rev() {
                    st.push(W::V(x));
                    st.push(W::K(k));
                }
            }
        }
    }
}
pub fn value_term(v: &Value) -> Term {
    let mut o = vec![];
    value(v, &mut o);
    Term::L(o)
}
