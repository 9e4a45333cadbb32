//! What a Rust type is to the specification: a descriptor, a rendering of its
//! values as flat tokens, and a generator of values.
use crate::flt::{f32_term, f64_term};
use crate::rng::Rng;
use crate::term::{bytes, digits, i, tag, Term};
use miniserde::json::{Array, Number, Object, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq)]
pub enum How {
    /// As read: maps in key order, single precision as such.
    Read,
    /// As it is going to be written: maps in iteration order, floats as doubles.
    Write,
}

pub trait Model {
    fn desc() -> Term;
    fn render(&self, how: How, o: &mut Vec<Term>);
    fn arb(r: &mut Rng, size: usize) -> Self
    where
        Self: Sized;
}

thread_local! {
    static ENV: RefCell<Vec<(String, Option<Term>)>> = const { RefCell::new(vec![]) };
}
/// A reference to a named type, defined on first use.
pub fn env(name: &str, def: impl FnOnce() -> Term) -> Term {
    let known = ENV.with(|e| e.borrow().iter().position(|x| x.0 == name));
    let k = match known {
        Some(k) => k,
        None => {
            let k = ENV.with(|e| {
                e.borrow_mut().push((name.to_string(), None));
                e.borrow().len() - 1
            });
            let d = def();
            ENV.with(|e| e.borrow_mut()[k].1 = Some(d));
            k
        }
    };
    tag("ref", vec![i(k as i64 + 1)])
}
pub fn env_terms() -> Vec<Term> {
    ENV.with(|e| e.borrow().iter().map(|x| x.1.clone().unwrap()).collect())
}

pub fn flat<T: Model>(x: &T, how: How) -> Term {
    let mut o = vec![];
    x.render(how, &mut o);
    Term::L(o)
}

macro_rules! ints {
    ($($t:ident)*) => {$(
        impl Model for $t {
            fn desc() -> Term {
                let lo = ($t::MIN as i128).unsigned_abs() as u64;
                tag("int", vec![digits(lo), digits($t::MAX as u64)])
            }
            fn render(&self, _: How, o: &mut Vec<Term>) {
                let n = *self as i128;
                o.push(tag("n", vec![i((n < 0) as i64), digits(n.unsigned_abs() as u64)]));
            }
            fn arb(r: &mut Rng, _: usize) -> Self {
                match r.below(6) {
                    0 => $t::MIN,
                    1 => $t::MAX,
                    2 => (r.next() as $t).wrapping_rem(100),
                    3 => ($t::MAX).wrapping_sub(r.below(3) as $t),
                    4 => (10 as u64).wrapping_pow(r.below(20) as u32).wrapping_sub(r.below(2) as u64) as $t,
                    _ => r.next() as $t,
                }
            }
        }
    )*};
}
ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);

pub fn arb_f64(r: &mut Rng, nonfinite: bool) -> f64 {
    loop {
        let f = match r.below(12) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 0.2, 0.3, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 123456789.0, -2.5]),
            1 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 2.225073858507201e-308, f64::EPSILON, 9007199254740993.0, 1.7976931348623155e308]),
            2 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
            3 => r.next() as f64,
            4 => (r.below(2000) as f64 - 1000.0) / 8.0,
            5 => (r.below(1_000_000) as f64) / 1000.0,
            6 => 10f64.powi(r.range(0, 616) as i32 - 308),
            7 => f64::from_bits(r.next() >> 12),
            8 => (r.below(200) as f64) * 10f64.powi(r.range(0, 40) as i32 - 20),
            _ => f64::from_bits(r.next()),
        };
        if nonfinite || f.is_finite() {
            return f;
        }
    }
}
impl Model for f64 {
    fn desc() -> Term {
        tag("f64", vec![])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(f64_term(*self));
    }
    fn arb(r: &mut Rng, _: usize) -> f64 {
        arb_f64(r, true)
    }
}
impl Model for f32 {
    fn desc() -> Term {
        tag("f32", vec![])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        o.push(if how == How::Write { f64_term(*self as f64) } else { f32_term(*self) });
    }
    fn arb(r: &mut Rng, _: usize) -> f32 {
        match r.below(6) {
            0 => *r.pick(&[0.0, -0.0, 0.1, 1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 16777217.0]),
            1 => (r.below(2000) as f32 - 1000.0) / 8.0,
            _ => f32::from_bits(r.next() as u32),
        }
    }
}
impl Model for () {
    fn desc() -> Term {
        tag("unit", vec![])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(tag("unit", vec![]));
    }
    fn arb(_: &mut Rng, _: usize) {}
}
impl Model for bool {
    fn desc() -> Term {
        tag("bool", vec![])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(tag("b", vec![i(*self as i64)]));
    }
    fn arb(r: &mut Rng, _: usize) -> bool {
        r.chance(1, 2)
    }
}

const SPECIALS: &[char] = &['"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\0', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}', '\u{2028}', '\u{ffff}', '😀', 'é', '\'', '<', '&', '\u{1b}', '\u{b}', '\u{e}'];
pub fn arb_string(r: &mut Rng) -> String {
    let n = match r.below(24) {
        0..=2 => 0,
        3..=8 => 1,
        9..=19 => r.range(2, 9),
        20..=22 => r.range(8, 40),
        _ => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025]),
    };
    let style = r.below(5);
    (0..n)
        .map(|k| match style {
            0 => (b'a' + (k % 26) as u8) as char,
            1 => *r.pick(SPECIALS),
            2 => char::from_u32(r.below(0x100) as u32).unwrap(),
            _ => match r.below(4) {
                0 => *r.pick(SPECIALS),
                1 => char::from_u32(r.below(32) as u32).unwrap(),
                _ => crate::gen::any_char(r),
            },
        })
        .collect()
}
impl Model for String {
    fn desc() -> Term {
        tag("str", vec![])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(tag("s", vec![bytes(self.as_bytes())]));
    }
    fn arb(r: &mut Rng, _: usize) -> String {
        arb_string(r)
    }
}
impl Model for &'static str {
    fn desc() -> Term {
        String::desc()
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(tag("s", vec![bytes(self.as_bytes())]));
    }
    fn arb(r: &mut Rng, _: usize) -> &'static str {
        arb_string(r).leak()
    }
}
impl Model for Cow<'static, str> {
    fn desc() -> Term {
        String::desc()
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(tag("s", vec![bytes(self.as_bytes())]));
    }
    fn arb(r: &mut Rng, _: usize) -> Self {
        if r.chance(1, 2) {
            Cow::Owned(arb_string(r))
        } else {
            Cow::Borrowed(arb_string(r).leak())
        }
    }
}
impl<T: Model + 'static> Model for &'static T {
    fn desc() -> Term {
        T::desc()
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        (**self).render(how, o)
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        Box::leak(Box::new(T::arb(r, size)))
    }
}
impl<T: Model + 'static> Model for &'static [T] {
    fn desc() -> Term {
        Vec::<T>::desc()
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        o.push(tag("v", vec![i(self.len() as i64)]));
        for x in *self {
            x.render(how, o);
        }
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        Vec::<T>::arb(r, size).leak()
    }
}
impl<T: Model> Model for Option<T> {
    fn desc() -> Term {
        tag("opt", vec![T::desc()])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        match self {
            None => o.push(tag("none", vec![])),
            Some(x) => {
                o.push(tag("some", vec![]));
                x.render(how, o);
            }
        }
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        if size == 0 || r.chance(1, 3) {
            None
        } else {
            Some(T::arb(r, size))
        }
    }
}
impl<T: Model> Model for Box<T> {
    fn desc() -> Term {
        tag("box", vec![T::desc()])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        o.push(tag("box", vec![]));
        (**self).render(how, o);
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        Box::new(T::arb(r, size.saturating_sub(1)))
    }
}
impl<A: Model, B: Model> Model for (A, B) {
    fn desc() -> Term {
        tag("tup", vec![A::desc(), B::desc()])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        o.push(tag("t", vec![i(2)]));
        self.0.render(how, o);
        self.1.render(how, o);
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        (A::arb(r, size.saturating_sub(1)), B::arb(r, size.saturating_sub(1)))
    }
}
pub fn arb_len(r: &mut Rng, size: usize) -> usize {
    if size == 0 {
        return 0;
    }
    match r.below(20) {
        0..=4 => 0,
        5..=9 => 1,
        10..=15 => r.range(2, 4),
        16..=18 => r.range(2, 10),
        _ => {
            if size >= 4 && r.chance(1, 4) {
                r.range(10, 70)
            } else {
                r.range(3, 12)
            }
        }
    }
}
impl<T: Model> Model for Vec<T> {
    fn desc() -> Term {
        tag("vec", vec![T::desc()])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        o.push(tag("v", vec![i(self.len() as i64)]));
        for x in self {
            x.render(how, o);
        }
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        let n = arb_len(r, size);
        (0..n).map(|_| T::arb(r, size.saturating_sub(1))).collect()
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn desc() -> Term {
        tag("arr", vec![i(N as i64), T::desc()])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        o.push(tag("v", vec![i(N as i64)]));
        for x in self {
            x.render(how, o);
        }
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        std::array::from_fn(|_| T::arb(r, size.saturating_sub(1)))
    }
}

pub trait Key: ToString + Ord {
    fn kdesc() -> Term;
    fn karb(r: &mut Rng) -> Self;
    /// The key is part of a value being rendered.
    fn note(&self) {}
}
impl Key for String {
    fn kdesc() -> Term {
        tag("str", vec![])
    }
    fn karb(r: &mut Rng) -> String {
        if r.chance(1, 2) {
            r.pick(&["a", "b", "c", "", "ab", "\"", "\n", "é", "\\", "k\0", "aa"]).to_string()
        } else {
            arb_string(r)
        }
    }
}
impl Key for bool {
    fn kdesc() -> Term {
        tag("bool", vec![])
    }
    fn karb(r: &mut Rng) -> bool {
        r.chance(1, 2)
    }
}
impl Key for char {
    fn kdesc() -> Term {
        tag("char", vec![])
    }
    fn karb(r: &mut Rng) -> char {
        if r.chance(1, 2) {
            *r.pick(SPECIALS)
        } else {
            crate::gen::any_char(r)
        }
    }
}
macro_rules! intkeys {
    ($($t:ident)*) => {$(
        impl Key for $t {
            fn kdesc() -> Term { $t::desc() }
            fn karb(r: &mut Rng) -> $t { if r.chance(1, 2) { (r.below(5) as $t).wrapping_sub(2) } else { $t::arb(r, 1) } }
        }
    )*};
}
intkeys!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);

/// A key type that is coarser than its text: ASCII case is folded.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Fold(pub String);
impl std::str::FromStr for Fold {
    type Err = u8;
    fn from_str(s: &str) -> Result<Fold, u8> {
        if s.len() > 8 {
            return Err(1);
        }
        Ok(Fold(s.to_ascii_lowercase()))
    }
}
impl std::fmt::Display for Fold {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Key for Fold {
    fn kdesc() -> Term {
        tag("fold", vec![i(8)])
    }
    fn karb(r: &mut Rng) -> Fold {
        Fold(String::karb(r).chars().take(2).collect::<String>().to_ascii_lowercase())
    }
}

fn render_map<'a, K: Key + 'a, V: Model + 'a>(it: impl Iterator<Item = (&'a K, &'a V)>, how: How, o: &mut Vec<Term>) {
    let mut v: Vec<(String, &V)> = it
        .map(|(k, v)| {
            k.note();
            (k.to_string(), v)
        })
        .collect();
    if how == How::Read {
        v.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    }
    o.push(tag("m", vec![i(v.len() as i64)]));
    for (k, x) in v {
        o.push(tag("k", vec![bytes(k.as_bytes())]));
        x.render(how, o);
    }
}
impl<K: Key, V: Model> Model for BTreeMap<K, V> {
    fn desc() -> Term {
        tag("map", vec![K::kdesc(), V::desc()])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        render_map(self.iter(), how, o)
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        let n = arb_len(r, size);
        (0..n).map(|_| (K::karb(r), V::arb(r, size.saturating_sub(1)))).collect()
    }
}
#[cfg(feature = "std")]
impl<K: Key + std::hash::Hash, V: Model, H: std::hash::BuildHasher + Default> Model for std::collections::HashMap<K, V, H> {
    fn desc() -> Term {
        tag("map", vec![K::kdesc(), V::desc()])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        render_map(self.iter(), how, o)
    }
    fn arb(r: &mut Rng, size: usize) -> Self {
        let n = arb_len(r, size);
        (0..n).map(|_| (K::karb(r), V::arb(r, size.saturating_sub(1)))).collect()
    }
}

impl Model for Number {
    fn desc() -> Term {
        tag("num", vec![])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(crate::flat::number(self));
    }
    fn arb(r: &mut Rng, _: usize) -> Number {
        match r.below(3) {
            0 => Number::U64(u64::arb(r, 0)),
            1 => Number::I64(i64::arb(r, 0)),
            _ => Number::F64(arb_f64(r, true)),
        }
    }
}
impl Model for Value {
    fn desc() -> Term {
        tag("value", vec![])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        crate::flat::value(self, o);
    }
    fn arb(r: &mut Rng, size: usize) -> Value {
        match if size == 0 { r.below(6) } else { r.below(12) } {
            0 => Value::Null,
            1 => Value::Bool(r.chance(1, 2)),
            2 | 3 => Value::Number(Number::arb(r, 0)),
            4 | 5 => Value::String(arb_string(r)),
            6..=8 => Value::Array(Array::arb(r, size)),
            _ => Value::Object(Object::arb(r, size)),
        }
    }
}
impl Model for Array {
    fn desc() -> Term {
        tag("varray", vec![])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(tag("a", vec![i(self.len() as i64)]));
        for x in self.iter() {
            crate::flat::value(x, o);
        }
    }
    fn arb(r: &mut Rng, size: usize) -> Array {
        let n = arb_len(r, size);
        (0..n).map(|_| Value::arb(r, size.saturating_sub(1))).collect()
    }
}
impl Model for Object {
    fn desc() -> Term {
        tag("vobject", vec![])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        o.push(tag("o", vec![i(self.len() as i64)]));
        for (k, x) in self.iter() {
            o.push(tag("k", vec![bytes(k.as_bytes())]));
            crate::flat::value(x, o);
        }
    }
    fn arb(r: &mut Rng, size: usize) -> Object {
        let n = arb_len(r, size);
        (0..n).map(|_| (String::karb(r), Value::arb(r, size.saturating_sub(1)))).collect()
    }
}
