//! Reads into types whose values report their birth and death, on an
//! allocator that checks its callers, with every callback of a user type made
//! to fail in turn, and records the history of every value.
//!   own --seed S --n N --words L --out FILE --conf FILE [--bytes B]
//! A record: <<type, text, status, flat, fault, log, held, zero-sized held,
//! blocks, bytes>>; the log is a list of <<event, id>>:
//!   1 born  2 died  3 died without being alive  4 a callback fails
//!   5 the read returns  6 zero-sized born  7 zero-sized died
#![allow(dead_code)]
use mh::docs::Docs;
use mh::guard::{self, Guard};
use mh::model::*;
use mh::rng::Rng;
use mh::run::{arg, init, num, Out, Runner};
use mh::term::{bytes, digits, i, s, tag, Term};
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::{make_place, Deserialize as Read, Error, Result};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[global_allocator]
static A: Guard = Guard;

// ------------------------------------------------------------- the recorder
struct Rec {
    log: Vec<(u8, u32)>,
    next: u32,
    calls: u32,
    drops: u32,
    at: u32,
    kind: u8,
    fired: u8,
    held: Vec<u32>,
    zheld: u32,
    overflow: bool,
}
thread_local! {
    static R: RefCell<Rec> = const { RefCell::new(Rec { log: vec![], next: 0, calls: 0, drops: 0, at: 0, kind: 0, fired: 0, held: vec![], zheld: 0, overflow: false }) };
    static NOTING: Cell<bool> = const { Cell::new(false) };
}
fn rec<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    guard::aside(|| R.with(|r| f(&mut r.borrow_mut())))
}
fn put(e: u8, id: u32) {
    rec(|r| {
        if r.log.len() < 4000 {
            r.log.push((e, id))
        } else {
            r.overflow = true
        }
    })
}
struct Fault;
fn boom() -> ! {
    resume_unwind(Box::new(Fault))
}
/// A call of user code: the k-th one may have to fail.  What is to happen:
/// 0 nothing, 1 fail before, 2 fail after; by panic if `can_err` is false.
fn call(can_err: bool) -> u8 {
    let f = rec(|r| {
        r.calls += 1;
        if r.calls == r.at && (1..=4).contains(&r.kind) {
            r.fired = if r.kind <= 2 && can_err { 1 } else { 2 };
            let after = can_err && (r.kind == 2 || r.kind == 4);
            r.fired * 2 + after as u8
        } else {
            0
        }
    });
    match f {
        0 => 0,
        2 => 1,
        3 => 2,
        4 => {
            put(4, 0);
            boom()
        }
        _ => 3,
    }
}
fn failed(how: u8) -> Result<()> {
    put(4, 0);
    if how == 3 {
        boom()
    }
    Err(Error)
}
fn born() -> u32 {
    let id = rec(|r| {
        r.next += 1;
        r.next
    });
    put(1, id);
    id
}
const ALIVE: u64 = 0x0A11_7E00_C0FF_EE00;
fn died(magic: &mut u64, id: u32, place: usize, align: usize) {
    if *magic != ALIVE ^ id as u64 || place % align != 0 {
        put(3, id);
    } else {
        put(2, id);
    }
    *magic = 0xDEAD;
    drop_fault();
}
fn drop_fault() {
    let f = rec(|r| {
        r.drops += 1;
        r.kind == 5 && r.drops == r.at
    });
    if f && !std::thread::panicking() {
        rec(|r| r.fired = 3);
        put(4, 0);
        boom()
    }
}
fn note(magic: u64, id: u32) {
    rec(|r| {
        r.held.push(id);
        if magic != ALIVE ^ id as u64 {
            r.held.push(id);
        }
    });
}

// ------------------------------------------------------------ tracked types
macro_rules! tracked {
    ($name:ident, $align:literal, $pad:literal) => {
        #[repr(align($align))]
        pub struct $name {
            magic: u64,
            id: u32,
            n: u64,
            pad: [u64; $pad],
        }
        impl $name {
            fn new(n: u64) -> $name {
                let id = born();
                $name { magic: ALIVE ^ id as u64, id, n, pad: [0; $pad] }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let at = self as *const Self as usize;
                died(&mut self.magic, self.id, at, $align)
            }
        }
        impl Model for $name {
            fn desc() -> Term {
                u64::desc()
            }
            fn render(&self, _: How, o: &mut Vec<Term>) {
                note(self.magic, self.id);
                o.push(tag("n", vec![i(0), digits(self.n)]));
            }
            fn arb(_: &mut Rng, _: usize) -> Self {
                unimplemented!()
            }
        }
        impl Deserialize for $name {
            fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
                make_place!(Place);
                impl Visitor for Place<$name> {
                    fn nonnegative(&mut self, n: u64) -> Result<()> {
                        let how = call(true);
                        if how == 1 {
                            return failed(how);
                        }
                        self.out = Some($name::new(n));
                        if how != 0 {
                            return failed(how);
                        }
                        Ok(())
                    }
                }
                call(false);
                Place::new(out)
            }
        }
    };
}
tracked!(Tk, 8, 0);
tracked!(TkA, 64, 0);
// too large, and too coarsely aligned, to be treated like the others
tracked!(TkM, 8, 600);
tracked!(TkL, 8, 5000);
tracked!(TkH, 8, 40000);
tracked!(TkP, 4096, 0);

/// A tracked value with memory of its own, read from a string.
pub struct TkS {
    inner: Tk,
    text: String,
}
impl Model for TkS {
    fn desc() -> Term {
        String::desc()
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        note(self.inner.magic, self.inner.id);
        o.push(tag("s", vec![bytes(self.text.as_bytes())]));
    }
    fn arb(_: &mut Rng, _: usize) -> Self {
        unimplemented!()
    }
}
impl Deserialize for TkS {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        make_place!(Place);
        impl Visitor for Place<TkS> {
            fn string(&mut self, t: &str) -> Result<()> {
                let how = call(true);
                if how == 1 {
                    return failed(how);
                }
                self.out = Some(TkS { inner: Tk::new(0), text: t.to_string() });
                if how != 0 {
                    return failed(how);
                }
                Ok(())
            }
        }
        call(false);
        Place::new(out)
    }
}

/// A tracked value without size, read from null.
pub struct TkZ(());
impl Drop for TkZ {
    fn drop(&mut self) {
        put(7, 0);
        drop_fault();
    }
}
impl Model for TkZ {
    fn desc() -> Term {
        <()>::desc()
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        rec(|r| r.zheld += 1);
        o.push(tag("unit", vec![]));
    }
    fn arb(_: &mut Rng, _: usize) -> Self {
        unimplemented!()
    }
}
impl Deserialize for TkZ {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        make_place!(Place);
        impl Visitor for Place<TkZ> {
            fn null(&mut self) -> Result<()> {
                let how = call(true);
                if how == 1 {
                    return failed(how);
                }
                put(6, 0);
                self.out = Some(TkZ(()));
                if how != 0 {
                    return failed(how);
                }
                Ok(())
            }
        }
        Place::new(out)
    }
}

/// Has a value of its own for a missing member.
pub struct TkD(Tk);
impl Model for TkD {
    fn desc() -> Term {
        tag("dflt", vec![u64::desc(), Term::L(vec![tag("n", vec![i(0), digits(77)])])])
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        self.0.render(how, o)
    }
    fn arb(_: &mut Rng, _: usize) -> Self {
        unimplemented!()
    }
}
impl Deserialize for TkD {
    fn default() -> Option<TkD> {
        call(false);
        Some(TkD(Tk::new(77)))
    }
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        make_place!(Place);
        impl Visitor for Place<TkD> {
            fn nonnegative(&mut self, n: u64) -> Result<()> {
                let how = call(true);
                if how == 1 {
                    return failed(how);
                }
                self.out = Some(TkD(Tk::new(n)));
                if how != 0 {
                    return failed(how);
                }
                Ok(())
            }
        }
        Place::new(out)
    }
}

/// A tracked map key, with memory of its own.
pub struct TkKey {
    t: Tk,
    text: String,
}
impl std::str::FromStr for TkKey {
    type Err = ();
    fn from_str(x: &str) -> std::result::Result<TkKey, ()> {
        let how = call(true);
        if how == 1 {
            return failed(how).map(|_| unreachable!()).map_err(drop);
        }
        let k = TkKey { t: Tk::new(0), text: x.to_string() };
        if how != 0 {
            return failed(how).map(|_| unreachable!()).map_err(drop);
        }
        Ok(k)
    }
}
impl std::fmt::Display for TkKey {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.text)
    }
}
impl PartialEq for TkKey {
    fn eq(&self, o: &TkKey) -> bool {
        call(false);
        self.text == o.text
    }
}
impl Eq for TkKey {}
impl PartialOrd for TkKey {
    fn partial_cmp(&self, o: &TkKey) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TkKey {
    fn cmp(&self, o: &TkKey) -> std::cmp::Ordering {
        call(false);
        self.text.cmp(&o.text)
    }
}
impl std::hash::Hash for TkKey {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        call(false);
        self.text.hash(h)
    }
}
impl Key for TkKey {
    fn kdesc() -> Term {
        String::kdesc()
    }
    fn karb(_: &mut Rng) -> Self {
        unimplemented!()
    }
    fn note(&self) {
        note(self.t.magic, self.t.id)
    }
}

/// A user container: collects into two places of its own.
pub struct Bag(Vec<Tk>);
impl Model for Bag {
    fn desc() -> Term {
        Vec::<Tk>::desc()
    }
    fn render(&self, how: How, o: &mut Vec<Term>) {
        self.0.render(how, o)
    }
    fn arb(_: &mut Rng, _: usize) -> Self {
        unimplemented!()
    }
}
impl Deserialize for Bag {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        make_place!(Place);
        struct B<'a> {
            out: &'a mut Option<Bag>,
            v: Vec<Box<Option<Tk>>>,
            own: Tk,
        }
        impl<'a> Seq for B<'a> {
            fn element(&mut self) -> Result<&mut dyn Visitor> {
                let how = call(true);
                if how != 0 {
                    failed(how)?;
                }
                self.v.push(Box::new(None));
                Ok(Deserialize::begin(&mut **self.v.last_mut().unwrap()))
            }
            fn finish(&mut self) -> Result<()> {
                let how = call(true);
                if how == 1 {
                    failed(how)?;
                }
                *self.out = Some(Bag(std::mem::take(&mut self.v).into_iter().filter_map(|x| *x).collect()));
                if how != 0 {
                    failed(how)?;
                }
                let _ = &self.own;
                Ok(())
            }
        }
        impl Visitor for Place<Bag> {
            fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
                let how = call(true);
                if how == 1 {
                    failed(how)?;
                }
                let b = B { out: &mut self.out, v: vec![], own: Tk::new(0) };
                if how != 0 {
                    failed(how)?;
                }
                Ok(Box::new(b))
            }
        }
        Place::new(out)
    }
}
pub struct Dict(Vec<(String, Tk)>);
impl Model for Dict {
    fn desc() -> Term {
        tag("struct", vec![Term::L(vec![])])
    }
    fn render(&self, _: How, o: &mut Vec<Term>) {
        // any number of members: to the specification an empty struct
        for (_, t) in &self.0 {
            note(t.magic, t.id);
        }
        o.push(tag("st", vec![i(0)]));
    }
    fn arb(_: &mut Rng, _: usize) -> Self {
        unimplemented!()
    }
}
impl Deserialize for Dict {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        make_place!(Place);
        struct B<'a> {
            out: &'a mut Option<Dict>,
            d: Vec<(String, Tk)>,
            v: Option<Value>,
        }
        impl<'a> Map for B<'a> {
            fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
                let how = call(true);
                if how == 1 {
                    failed(how)?;
                }
                self.d.push((k.to_string(), Tk::new(1)));
                if how != 0 {
                    failed(how)?;
                }
                if k.len() % 2 == 0 {
                    Ok(<dyn Visitor>::ignore())
                } else {
                    Ok(Deserialize::begin(&mut self.v))
                }
            }
            fn finish(&mut self) -> Result<()> {
                let how = call(true);
                if how != 0 {
                    failed(how)?;
                }
                *self.out = Some(Dict(std::mem::take(&mut self.d)));
                Ok(())
            }
        }
        impl Visitor for Place<Dict> {
            fn map(&mut self) -> Result<Box<dyn Map + '_>> {
                let how = call(true);
                if how != 0 {
                    failed(how)?;
                }
                Ok(Box::new(B { out: &mut self.out, d: vec![], v: None }))
            }
        }
        Place::new(out)
    }
}

// ----------------------------------------------------------- derived structs
macro_rules! strukt {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Read)]
        pub struct $name { $(pub $f: $t),* }
        impl Model for $name {
            fn desc() -> Term {
                env(stringify!($name), || tag("struct", vec![Term::L(vec![$(
                    Term::L(vec![bytes(stringify!($f).as_bytes()), Term::L(vec![]), <$t as Model>::desc()])
                ),*])]))
            }
            fn render(&self, how: How, o: &mut Vec<Term>) {
                o.push(tag("st", vec![i([$(stringify!($f)),*].len() as i64)]));
                $(self.$f.render(how, o);)*
            }
            fn arb(_: &mut Rng, _: usize) -> Self { unimplemented!() }
        }
    };
}
strukt!(One { a: Tk });
strukt!(Two { a: Tk, b: TkS });
strukt!(Opt { a: Option<Tk>, b: Option<Box<TkA>>, c: Option<TkZ> });
strukt!(Dft { a: TkD, b: Tk, c: Option<TkD> });
strukt!(Arrs { a: [Tk; 2], b: Option<[TkS; 1]>, z: [TkZ; 1] });
strukt!(Boxes { a: Box<[Tk; 2]>, b: Box<Two>, c: Option<Box<Vec<Tk>>> });
strukt!(Node { v: Tk, next: Option<Box<Node>>, kids: Option<Vec<Node>> });
strukt!(Large { a: TkL, b: Option<TkM>, c: Option<Box<[TkM; 2]>>, d: Option<Vec<TkP>> });
strukt!(Maps { a: BTreeMap<TkKey, Tk>, b: Option<HashMap<TkKey, [Tk; 1]>>, v: Option<Value> });

// ------------------------------------------------------------------ the runs
struct Entry {
    name: &'static str,
    desc: fn() -> Term,
    run: fn(&str, u8, u32) -> Case,
}
#[derive(Clone)]
struct Case {
    status: &'static str,
    flat: Term,
    fault: &'static str,
    log: Vec<(u8, u32)>,
    held: Vec<u32>,
    zheld: u32,
    blocks: i64,
    bytes: i64,
    calls: u32,
    drops: u32,
    overflow: bool,
}
fn one<T: Model + Deserialize>(text: &str, kind: u8, at: u32) -> Case {
    rec(|r| {
        r.log.clear();
        r.held.clear();
        (r.next, r.calls, r.drops, r.at, r.kind, r.fired, r.zheld, r.overflow) = (0, 0, 0, at, kind, 0, 0, false);
    });
    let base = guard::live();
    guard::counting(true);
    let got = catch_unwind(AssertUnwindSafe(|| json::from_str::<T>(text)));
    guard::counting(false);
    put(5, 0);
    let (calls, drops) = rec(|r| {
        if r.kind < 5 {
            r.kind = 0;
        }
        (r.calls, r.drops)
    });
    let (status, flat, val) = match got {
        Err(p) => {
            let user = p.is::<Fault>();
            drop(p);
            (if user { "panic" } else { "crash" }, Term::L(vec![]), None)
        }
        Ok(Err(_)) => ("err", Term::L(vec![]), None),
        Ok(Ok(v)) => ("ok", flat(&v, How::Read), Some(v)),
    };
    let fired = rec(|r| r.fired);
    let _ = catch_unwind(AssertUnwindSafe(move || drop(val)));
    let now = guard::live();
    let drops = if fired == 0 && kind == 0 { rec(|r| r.drops) } else { drops };
    rec(|r| Case {
        status,
        flat,
        fault: ["none", "err", "panic", "drop"][r.fired as usize],
        log: r.log.clone(),
        held: r.held.clone(),
        zheld: r.zheld,
        blocks: now.0 - base.0,
        bytes: now.1 - base.1,
        calls,
        drops,
        overflow: r.overflow,
    })
}
fn registry() -> Vec<Entry> {
    macro_rules! types {
        ($($t:ty),* $(,)?) => { vec![$(Entry { name: stringify!($t), desc: <$t as Model>::desc, run: one::<$t> }),*] };
    }
    types![
        Tk, TkA, TkS, TkZ, TkD, Option<Tk>, Box<Tk>, Option<Box<Tk>>, Box<Option<Tk>>, Box<Box<TkA>>, Option<Option<TkS>>,
        Vec<Tk>, Vec<TkZ>, Vec<TkA>, Vec<TkS>, Vec<Vec<Tk>>, Vec<Option<Tk>>, Vec<Box<Tk>>, Option<Vec<Tk>>, Box<Vec<Tk>>,
        [Tk; 0], [Tk; 1], [Tk; 2], [Tk; 3], [TkA; 2], [TkS; 2], [TkZ; 2], [TkZ; 0], [[Tk; 2]; 2], [Vec<Tk>; 2], [Box<Tk>; 2], [Option<Tk>; 2], [Tk; 33], [(Tk, TkZ); 2],
        Vec<[Tk; 2]>, Box<[Tk; 2]>, Option<[Tk; 2]>, Box<[Box<[Tk; 1]>; 2]>, Vec<Option<Box<[Tk; 1]>>>, Option<Box<[Option<Tk>; 1]>>,
        (Tk, Tk), (TkA, TkZ), (Vec<Tk>, [Tk; 1]), ((Tk, Tk), TkS), (Option<Tk>, Box<Tk>), Box<(Tk, Vec<Tk>)>, Vec<(Tk, TkS)>, ([Tk; 2], [Tk; 2]),
        BTreeMap<String, Tk>, BTreeMap<TkKey, Tk>, BTreeMap<TkKey, ()>, BTreeMap<u8, TkS>, BTreeMap<TkKey, [Tk; 2]>, BTreeMap<String, Box<[Tk; 2]>>, BTreeMap<TkKey, BTreeMap<TkKey, Tk>>, BTreeMap<String, Option<Vec<Tk>>>,
        HashMap<String, Tk>, HashMap<TkKey, Tk>, HashMap<TkKey, [TkS; 1]>, Box<HashMap<TkKey, Vec<Tk>>>, Box<BTreeMap<TkKey, Tk>>, Option<Box<BTreeMap<String, TkZ>>>,
        One, Two, Opt, Dft, Arrs, Boxes, Node, Maps, Vec<One>, [Two; 2], Box<One>, BTreeMap<TkKey, Two>, BTreeMap<String, Arrs>, Vec<Dft>, Box<Box<Boxes>>, Option<Box<Option<Box<One>>>>,
        TkL, Vec<TkL>, Box<TkL>, Option<Box<[TkL; 1]>>, [TkL; 1], [TkL; 2], [TkM; 3], [TkM; 16], [[TkM; 3]; 3], Vec<[TkM; 14]>, (TkL, Tk), (Tk, (TkM, TkP)), [TkH; 1], Box<[TkH; 1]>, [Option<TkL>; 2], [(TkM, Tk); 9], Vec<TkP>, [TkP; 2], [TkP; 10], Box<TkP>, BTreeMap<TkKey, TkL>, HashMap<String, [TkL; 1]>, BTreeMap<String, [TkP; 9]>, Large, [Large; 1], Box<Large>,
        Bag, Dict, Vec<Bag>, Box<Bag>, [Bag; 2], Option<Dict>, Box<Dict>, BTreeMap<TkKey, Dict>, (Bag, Dict),
        Value, Array, Object, Number, String, Vec<Value>, Box<Value>, Box<Object>, [Value; 2], [Array; 1], BTreeMap<String, Value>, HashMap<String, Object>, Option<Array>, (Value, Tk), Box<[Value; 1]>, Vec<Box<[String; 1]>>,
    ]
}

/// Every beginning of a document of at most `len` tokens, and each of them
/// with one token that does not fit.
fn small_texts(len: usize) -> Vec<String> {
    #[derive(Clone, Copy, PartialEq)]
    enum E {
        Value,
        ValueOrClose,
        Comma,
        Key,
        KeyOrClose,
        End,
    }
    let toks = ["[", "]", ",", "1", "{", "}", "\"a\":", "null", "\"s\"", "\"b\":"];
    let mut all = vec![String::new()];
    let mut front: Vec<(String, Vec<bool>, E)> = vec![(String::new(), vec![], E::Value)];
    for _ in 0..len {
        let mut next = vec![];
        for (w, st, e) in &front {
            for (k, t) in toks.iter().enumerate() {
                let mut st = st.clone();
                let value = *e == E::Value || *e == E::ValueOrClose;
                let after = |st: &Vec<bool>| if st.is_empty() { E::End } else { E::Comma };
                let ne = match k {
                    0 if value => {
                        st.push(true);
                        Some(E::ValueOrClose)
                    }
                    4 if value => {
                        st.push(false);
                        Some(E::KeyOrClose)
                    }
                    3 | 7 | 8 if value => Some(after(&st)),
                    1 if st.last() == Some(&true) && (*e == E::ValueOrClose || *e == E::Comma) => {
                        st.pop();
                        Some(after(&st))
                    }
                    5 if st.last() == Some(&false) && (*e == E::KeyOrClose || *e == E::Comma) => {
                        st.pop();
                        Some(after(&st))
                    }
                    2 if *e == E::Comma => Some(if st.last() == Some(&true) { E::Value } else { E::Key }),
                    6 | 9 if *e == E::Key || *e == E::KeyOrClose => Some(E::Value),
                    _ => None,
                };
                let u = format!("{}{}", w, t);
                all.push(u.clone());
                if let Some(ne) = ne {
                    next.push((u, st, ne));
                }
            }
        }
        front = next;
    }
    all
}

/// Documents with many members for some of the types.
fn crowds(name: &str) -> Vec<String> {
    let many = |n: usize, item: &dyn Fn(usize) -> String| (0..n).map(item).collect::<Vec<_>>().join(",");
    let sizes = [65, 130, 300, 600];
    let arr = |item: &dyn Fn(usize) -> String| sizes.iter().map(|n| format!("[{}]", many(*n, item))).collect::<Vec<_>>();
    let obj = |item: &dyn Fn(usize) -> String| sizes.iter().map(|n| format!("{{{}}}", many(*n, &|k| format!("\"k{}\":{}", k * 7 % (n - 9), item(k))))).collect::<Vec<_>>();
    let one = |_: usize| "1".to_string();
    match name {
        "Vec<Tk>" | "Vec<TkA>" | "Vec<Box<Tk>>" | "Vec<Option<Tk>>" | "Option<Vec<Tk>>" | "Box<Vec<Tk>>" | "Bag" | "Vec<TkP>" => arr(&one),
        "Vec<TkZ>" => arr(&|_| "null".to_string()),
        "Vec<TkS>" => arr(&|k| format!("\"{}\"", "x".repeat(k % 40))),
        "Vec<[Tk; 2]>" => arr(&|_| "[1,2]".to_string()),
        "Vec<Vec<Tk>>" => arr(&|k| format!("[{}]", many(k % 5, &one))),
        "Vec<One>" => arr(&|_| "{\"a\":1}".to_string()),
        "BTreeMap<String, Tk>" | "BTreeMap<TkKey, Tk>" | "HashMap<String, Tk>" | "HashMap<TkKey, Tk>" | "Box<BTreeMap<TkKey, Tk>>" | "Dict" => obj(&one),
        "HashMap<TkKey, [TkS; 1]>" => obj(&|_| "[\"s\"]".to_string()),
        "BTreeMap<TkKey, Two>" => obj(&|_| "{\"a\":1,\"b\":\"y\"}".to_string()),
        "Value" | "Object" | "Box<Object>" => obj(&|k| ["1", "[1,2]", "{\"a\":\"b\"}", "\"str\""][k % 4].to_string()),
        "Array" => arr(&|k| ["1", "[1,[]]", "{\"a\":\"b\"}", "\"str\""][k % 4].to_string()),
        "Node" => [40, 150, 400].iter().map(|d| format!("{}{{\"v\":1}}{}", "{\"v\":1,\"next\":".repeat(*d), "}".repeat(*d))).chain(sizes.iter().map(|n| format!("{{\"kids\":[{}],\"v\":1}}", many(*n, &|_| "{\"v\":2}".to_string())))).collect(),
        _ => vec![],
    }
}

struct Sink {
    o: Out,
    seen: HashSet<u64>,
    reads: u64,
    size: usize,
}
impl Sink {
    fn put(&mut self, k: usize, text: &str, c: &Case, always: bool) {
        use std::hash::{Hash, Hasher};
        self.reads += 1;
        if c.overflow {
            return;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (k, c.status, c.fault, &c.log, &c.held, c.zheld, c.blocks, c.bytes).hash(&mut h);
        if !self.seen.insert(h.finish()) && !always {
            return;
        }
        let log = Term::L(c.log.iter().map(|x| Term::L(vec![i(x.0 as i64), i(x.1 as i64)])).collect());
        let held = Term::L(c.held.iter().map(|x| i(*x as i64)).collect());
        self.size += text.len() + 12 * c.log.len() + 60;
        self.o.put(&Term::L(vec![i(k as i64 + 1), bytes(text.as_bytes()), s(c.status), c.flat.clone(), s(c.fault), log, held, i(c.zheld as i64), i(c.blocks), i(c.bytes)]));
    }
}

fn main() {
    let outp = arg("out").unwrap();
    init(&outp, 30);
    let entries = registry();
    let run = Runner::new(&outp, 0);
    let mut k = Sink { o: Out::new(&outp), seen: HashSet::new(), reads: 0, size: 0 };
    let mut r = Rng::new(num("seed", 1) ^ 0x0123 ^ (num("part", 0) << 32));
    let n = num("n", 20) as usize;
    let wlen = num("words", 4) as usize;
    let cap = num("bytes", 4_000_000) as usize;
    let descs: Vec<Term> = entries.iter().map(|e| (e.desc)()).collect();
    let env = env_terms();
    let words = small_texts(wlen);
    let mut faults = [0u64; 4];
    let (part, parts) = (num("part", 0) as usize, num("parts", 1) as usize);
    for (ti, e) in entries.iter().enumerate() {
        if ti % parts != part {
            continue;
        }
        let mut go = |k: &mut Sink, text: &str, kind: u8, at: u32, always: bool| -> Case {
            let what = format!("{} fault {} at {}\n{}", e.name, kind, at, text);
            let mut c = None;
            if run.case(what.as_bytes(), || c = Some((e.run)(text, kind, at))).is_none() {
                eprintln!("the recorder panicked on {}", what);
                std::process::exit(96);
            }
            let c = c.unwrap();
            faults[match c.fault { "err" => 1, "panic" => 2, "drop" => 3, _ => 0 }] += 1;
            k.put(ti, text, &c, always);
            c
        };
        let all_faults = |k: &mut Sink, go: &mut dyn FnMut(&mut Sink, &str, u8, u32, bool) -> Case, r: &mut Rng, text: &str, c: &Case, most: usize| {
            for kind in 1..=5u8 {
                let n = if kind == 5 { c.drops } else { c.calls };
                if n as usize <= most {
                    for at in 1..=n {
                        go(k, text, kind, at, false);
                    }
                } else {
                    for _ in 0..most {
                        let at = 1 + r.below(n as usize) as u32;
                        go(k, text, kind, at, false);
                    }
                }
            }
        };
        // every small text
        for w in &words {
            let c = go(&mut k, w, 0, 0, false);
            if c.calls > 1 || c.drops > 0 {
                all_faults(&mut k, &mut go, &mut r, w, &c, 6);
            }
        }
        // wide and deep ones
        for w in crowds(e.name) {
            let c = go(&mut k, &w, 0, 0, true);
            all_faults(&mut k, &mut go, &mut r, &w, &c, 1);
            let n = c.calls;
            if n > 4 {
                for kind in 1..=4 {
                    go(&mut k, &w, kind, n - r.below(3) as u32, false);
                }
            }
            let cut = w[..w.len() - 1].to_string();
            go(&mut k, &cut, 0, 0, false);
        }
        // larger ones
        let start = k.size;
        for m in 0..n {
            if k.size - start > cap / entries.len() {
                break;
            }
            let d = Docs { env: &env, bad: *r.pick(&[0, 0, 0, 12, 6]), heavy: m % 5 == 4 };
            let mut t = String::new();
            let depth = r.range(1, 4);
            d.gen(&descs[ti], &mut r, &mut t, depth);
            if r.chance(1, 20) {
                t = mh::gen::mutate(&mut r, &t);
            }
            if t.len() > 1500 {
                continue;
            }
            let c = go(&mut k, &t, 0, 0, true);
            all_faults(&mut k, &mut go, &mut r, &t, &c, 10);
            // cut short, or continued wrongly, anywhere
            let cuts: Vec<usize> = (0..t.len()).filter(|p| t.is_char_boundary(*p)).collect();
            for _ in 0..cuts.len().min(16) {
                let p = *r.pick(&cuts);
                let junk = *r.pick(&["", "", "]", "}", ",", "null", "x", "1", "[", "{"]);
                let u = format!("{}{}", &t[..p], junk);
                let c = go(&mut k, &u, 0, 0, false);
                if r.chance(1, 4) {
                    all_faults(&mut k, &mut go, &mut r, &u, &c, 2);
                }
            }
        }
    }
    println!("reads {} records {} types {} failing callbacks {} panics {} panicking destructors {} blocks counted {}", k.reads, k.o.n, entries.len(), faults[1], faults[2], faults[3], guard::total());
    let mut o = String::from("{\"types\":");
    Term::L(descs).write(&mut o);
    o.push_str(",\"env\":");
    Term::L(env).write(&mut o);
    o.push_str(",\"names\":");
    Term::L(entries.iter().map(|e| s(e.name)).collect()).write(&mut o);
    o.push_str("}\n");
    std::fs::write(arg("conf").unwrap(), o).unwrap();
    k.o.done();
}
