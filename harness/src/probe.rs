//! User-defined visitors, builders, values and streams that log every call
//! made on them.  One `Sess` is one call of from_str or to_string.
use crate::flt::f64_term;
use crate::term::{bytes, digits, i, tag, Term};
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::json::Value;
use miniserde::ser::{self, Fragment, Serialize};
use miniserde::{make_place, Error, Result};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    Err(i64),
    Panic(i64),
}
impl Fault {
    pub fn term(self) -> [Term; 2] {
        match self {
            Fault::None => [i(0), i(0)],
            Fault::Err(k) => [i(k), i(1)],
            Fault::Panic(k) => [i(k), i(2)],
        }
    }
}

/// What one call is asked to do.
#[derive(Clone)]
pub struct Job {
    pub what: What,
    pub plan: Vec<i64>,
    pub fault: Fault,
    /// jobs to run inside the callback of this number
    pub nest: BTreeMap<i64, Vec<Job>>,
}
#[derive(Clone)]
pub enum What {
    Read(String),
    Write(Vec<Term>),
    /// into the untyped value: no callbacks
    Value(String),
}
impl Job {
    pub fn read(text: &str, plan: &[i64], fault: Fault) -> Job {
        Job { what: What::Read(text.to_string()), plan: plan.to_vec(), fault, nest: BTreeMap::new() }
    }
    pub fn write(value: &[Term], plan: &[i64], fault: Fault) -> Job {
        Job { what: What::Write(value.to_vec()), plan: plan.to_vec(), fault, nest: BTreeMap::new() }
    }
    pub fn value(text: &str) -> Job {
        Job { what: What::Value(text.to_string()), plan: vec![0], fault: Fault::None, nest: BTreeMap::new() }
    }
    /// <<kind, text or flat, plan, k, mode, <<<<k, jobs>>, ...>>>>
    pub fn parse(t: &Term) -> Job {
        let l = t.list();
        let plan: Vec<i64> = l[2].list().iter().map(|x| x.int()).collect();
        let fault = match l[4].int() {
            1 => Fault::Err(l[3].int()),
            2 => Fault::Panic(l[3].int()),
            _ => Fault::None,
        };
        let text = || String::from_utf8(l[1].as_bytes()).unwrap();
        let what = match l[0].str() {
            "r" => What::Read(text()),
            "v" => What::Value(text()),
            _ => What::Write(l[1].list().to_vec()),
        };
        let nest = l[5].list().iter().map(|n| (n.list()[0].int(), n.list()[1].list().iter().map(Job::parse).collect())).collect();
        Job { what, plan, fault, nest }
    }
    pub fn term(&self) -> Term {
        let [fk, fm] = self.fault.term();
        let (k, body) = match &self.what {
            What::Read(x) => ("r", bytes(x.as_bytes())),
            What::Value(x) => ("v", bytes(x.as_bytes())),
            What::Write(v) => ("w", Term::L(v.clone())),
        };
        let nest = self.nest.iter().map(|(k, v)| Term::L(vec![i(*k), Term::L(v.iter().map(|j| j.term()).collect())])).collect();
        tag(k, vec![body, Term::L(self.plan.iter().map(|x| i(*x)).collect()), fk, fm, Term::L(nest)])
    }
}

/// Threads take turns at every callback as a schedule says.
pub struct Baton {
    pub st: Mutex<BatonState>,
    pub cv: Condvar,
}
pub struct BatonState {
    pub sched: Vec<usize>,
    pub pos: usize,
    pub done: Vec<bool>,
    pub order: Vec<usize>,
}
impl BatonState {
    fn skip(&mut self) {
        while self.pos < self.sched.len() && self.done[self.sched[self.pos]] {
            self.pos += 1;
        }
    }
    fn turn(&self, me: usize) -> bool {
        if self.pos < self.sched.len() {
            self.sched[self.pos] == me
        } else {
            // schedule exhausted: lowest unfinished thread first
            self.done.iter().position(|d| !d) == Some(me)
        }
    }
}
impl Baton {
    pub fn new(sched: Vec<usize>, n: usize) -> Arc<Baton> {
        Arc::new(Baton { st: Mutex::new(BatonState { sched, pos: 0, done: vec![false; n], order: vec![] }), cv: Condvar::new() })
    }
    /// Wait for this thread's turn, and take it.
    pub fn step(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        loop {
            g.skip();
            if g.turn(me) {
                break;
            }
            g = self.cv.wait(g).unwrap();
        }
        if g.pos < g.sched.len() {
            g.pos += 1;
        }
        g.order.push(me);
        drop(g);
        self.cv.notify_all();
    }
    pub fn finish(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        g.done[me] = true;
        drop(g);
        self.cv.notify_all();
    }
}

pub struct Sess {
    pub log: RefCell<Vec<Term>>,
    np: Cell<i64>,
    nb: Cell<i64>,
    n: Cell<i64>,
    fault: Fault,
    plan: Vec<i64>,
    /// jobs to run inside the callback of this number
    nest: BTreeMap<i64, Vec<Job>>,
    pub subs: RefCell<Vec<Term>>,
    baton: Option<(Arc<Baton>, usize)>,
}

thread_local! {
    static CUR: RefCell<Vec<Rc<Sess>>> = const { RefCell::new(Vec::new()) };
}
fn cur() -> Rc<Sess> {
    CUR.with(|c| c.borrow().last().expect("a session").clone())
}

impl Sess {
    pub fn new(plan: Vec<i64>, fault: Fault, nest: BTreeMap<i64, Vec<Job>>, baton: Option<(Arc<Baton>, usize)>) -> Rc<Sess> {
        Rc::new(Sess { log: RefCell::new(vec![]), np: Cell::new(1), nb: Cell::new(0), n: Cell::new(0), fault, plan, nest, subs: RefCell::new(vec![]), baton })
    }
    fn kind(&self, p: i64) -> i64 {
        if self.plan.is_empty() {
            0
        } else {
            self.plan[((p - 1) as usize) % self.plan.len()]
        }
    }
    /// One callback: logged, then whatever is to happen inside it.
    fn call(&self, ev: Term, lent: Option<&[u8]>) -> Result<()> {
        let copy = lent.map(|b| b.to_vec());
        self.log.borrow_mut().push(ev);
        let n = self.n.get() + 1;
        self.n.set(n);
        if let Some((b, me)) = &self.baton {
            b.step(*me);
        }
        if let Some(jobs) = self.nest.get(&n) {
            for j in jobs {
                let r = run_job(j, self.baton.clone());
                self.subs.borrow_mut().push(r);
            }
        }
        if let (Some(c), Some(l)) = (copy, lent) {
            if c != l {
                self.log.borrow_mut().push(tag("torn", vec![]));
            }
        }
        match self.fault {
            Fault::Err(k) if k == n => Err(Error),
            Fault::Panic(k) if k == n => panic!("fault {}", k),
            _ => Ok(()),
        }
    }
    fn note(&self, ev: Term) {
        self.log.borrow_mut().push(ev);
    }
}

// ------------------------------------------------------------------- reading

make_place!(Place);

/// The value a probe place ends up with.
pub struct Tok;
/// The root of a document read by probes.
pub struct Root;

enum Dest<'a> {
    Flag(&'a mut bool),
    Tok(&'a mut Option<Tok>),
    Root(&'a mut Option<Root>),
}
impl Dest<'_> {
    fn fill(&mut self) {
        match self {
            Dest::Flag(b) => **b = true,
            Dest::Tok(t) => **t = Some(Tok),
            Dest::Root(t) => **t = Some(Root),
        }
    }
}

struct Builder<'a> {
    s: Rc<Sess>,
    b: i64,
    dest: Dest<'a>,
    slot: Slot,
}

enum Slot {
    None,
    Probe(Box<Probe>),
    Value(Box<Option<Value>>),
    Boxed(Box<Option<Box<Tok>>>),
    Opt(Box<Option<Option<Tok>>>),
    OptBox(Box<Option<Option<Box<Tok>>>>),
    BoxOpt(Box<Option<Box<Option<Tok>>>>),
}

struct Probe {
    s: Rc<Sess>,
    p: i64,
    filled: bool,
}

fn open<'a>(s: &Rc<Sess>, t: &str, p: i64, dest: Dest<'a>) -> Result<Builder<'a>> {
    let b = s.nb.get() + 1;
    s.nb.set(b);
    s.call(tag(t, vec![i(p), i(b)]), None)?;
    Ok(Builder { s: s.clone(), b, dest, slot: Slot::None })
}
fn scalar(s: &Sess, p: i64, t: &str, rest: Vec<Term>, lent: Option<&[u8]>) -> Result<()> {
    let mut v = vec![i(p)];
    v.extend(rest);
    s.call(tag(t, v), lent)
}

macro_rules! visitor {
    ($this:ident, $sess:expr, $p:expr, $dest:expr) => {
        fn null(&mut self) -> Result<()> {
            let $this = self;
            scalar(&$sess, $p, "null", vec![], None)?;
            Ok($dest.fill())
        }
        fn boolean(&mut self, b: bool) -> Result<()> {
            let $this = self;
            scalar(&$sess, $p, "bool", vec![i(b as i64)], None)?;
            Ok($dest.fill())
        }
        fn string(&mut self, x: &str) -> Result<()> {
            let $this = self;
            scalar(&$sess, $p, "str", vec![bytes(x.as_bytes())], Some(x.as_bytes()))?;
            Ok($dest.fill())
        }
        fn negative(&mut self, n: i64) -> Result<()> {
            let $this = self;
            scalar(&$sess, $p, "neg", vec![digits(n.unsigned_abs())], None)?;
            Ok($dest.fill())
        }
        fn nonnegative(&mut self, n: u64) -> Result<()> {
            let $this = self;
            scalar(&$sess, $p, "nonneg", vec![digits(n)], None)?;
            Ok($dest.fill())
        }
        fn float(&mut self, n: f64) -> Result<()> {
            let $this = self;
            scalar(&$sess, $p, "float", vec![f64_term(n)], None)?;
            Ok($dest.fill())
        }
        fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
            let $this = self;
            let (s, p) = ($sess.clone(), $p);
            Ok(Box::new(open(&s, "seq", p, $dest)?))
        }
        fn map(&mut self) -> Result<Box<dyn Map + '_>> {
            let $this = self;
            let (s, p) = ($sess.clone(), $p);
            Ok(Box::new(open(&s, "map", p, $dest)?))
        }
    };
}

impl Visitor for Probe {
    visitor!(x, x.s, x.p, Dest::Flag(&mut x.filled));
}
impl Visitor for Place<Tok> {
    visitor!(x, cur(), cur().np.get(), Dest::Tok(&mut x.out));
}
impl Visitor for Place<Root> {
    visitor!(x, cur(), 1, Dest::Root(&mut x.out));
}

impl Deserialize for Tok {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}
impl Deserialize for Root {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}

impl Builder<'_> {
    fn request(&mut self) -> &mut dyn Visitor {
        let p = self.s.np.get() + 1;
        self.s.np.set(p);
        match self.s.kind(p) {
            1 => {
                self.slot = Slot::None;
                <dyn Visitor>::ignore()
            }
            2 => {
                self.slot = Slot::Value(Box::new(None));
                match &mut self.slot {
                    Slot::Value(v) => <Value as Deserialize>::begin(v),
                    _ => unreachable!(),
                }
            }
            3 => {
                self.slot = Slot::Boxed(Box::new(None));
                match &mut self.slot {
                    Slot::Boxed(v) => Deserialize::begin(&mut **v),
                    _ => unreachable!(),
                }
            }
            4 => {
                self.slot = Slot::Opt(Box::new(None));
                match &mut self.slot {
                    Slot::Opt(v) => Deserialize::begin(&mut **v),
                    _ => unreachable!(),
                }
            }
            5 => {
                self.slot = Slot::OptBox(Box::new(None));
                match &mut self.slot {
                    Slot::OptBox(v) => Deserialize::begin(&mut **v),
                    _ => unreachable!(),
                }
            }
            6 => {
                self.slot = Slot::BoxOpt(Box::new(None));
                match &mut self.slot {
                    Slot::BoxOpt(v) => Deserialize::begin(&mut **v),
                    _ => unreachable!(),
                }
            }
            _ => {
                self.slot = Slot::Probe(Box::new(Probe { s: self.s.clone(), p, filled: false }));
                match &mut self.slot {
                    Slot::Probe(v) => &mut **v,
                    _ => unreachable!(),
                }
            }
        }
    }
    /// The place handed out last must hold its value by now.
    fn settled(&self) {
        let ok = match &self.slot {
            Slot::None => true,
            Slot::Probe(p) => p.filled,
            Slot::Value(v) => v.is_some(),
            Slot::Boxed(v) => v.is_some(),
            Slot::Opt(v) => matches!(**v, Some(_)),
            Slot::OptBox(v) => matches!(**v, Some(_)),
            Slot::BoxOpt(v) => v.is_some(),
        };
        if !ok {
            self.s.note(tag("unfilled", vec![i(self.b)]));
        }
    }
    fn end(&mut self) -> Result<()> {
        self.settled();
        self.s.call(tag("end", vec![i(self.b)]), None)?;
        self.dest.fill();
        Ok(())
    }
}
impl Seq for Builder<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.settled();
        self.s.call(tag("elem", vec![i(self.b), i(self.s.np.get() + 1)]), None)?;
        Ok(self.request())
    }
    fn finish(&mut self) -> Result<()> {
        self.end()
    }
}
impl Map for Builder<'_> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        self.settled();
        self.s.call(tag("key", vec![i(self.b), bytes(k.as_bytes()), i(self.s.np.get() + 1)]), Some(k.as_bytes()))?;
        Ok(self.request())
    }
    fn finish(&mut self) -> Result<()> {
        self.end()
    }
}
impl Drop for Builder<'_> {
    fn drop(&mut self) {
        self.s.note(tag("drop", vec![i(self.b)]));
    }
}

// ------------------------------------------------------------------- writing

/// A value to be written, built from flat tokens; node n is the n-th in
/// pre-order.  The plan says, per node, how it is handed to the writer.
pub struct Node {
    s: Rc<Sess>,
    n: i64,
    data: Data,
}
enum Data {
    Scalar(Term),
    Seq(Vec<Child>),
    Map(Vec<(String, Child)>),
}
enum Child {
    Node(Node),
    Boxed(Box<Node>),
    Opt(Option<Node>),
    BoxOpt(Box<Option<Box<Node>>>),
    /// an optional or boxed absent value
    Absent(Option<Node>),
    /// the library's own containers around probe nodes
    Vec(Vec<Node>),
}
impl Child {
    fn ser(&self) -> &dyn Serialize {
        match self {
            Child::Node(n) => n,
            Child::Boxed(n) => n,
            Child::Opt(n) => n,
            Child::BoxOpt(n) => n,
            Child::Absent(n) => n,
            Child::Vec(n) => n,
        }
    }
}

pub fn build(s: &Rc<Sess>, toks: &[Term]) -> Node {
    // without recursion: depth may be large
    enum F {
        Seq(i64, usize, Vec<Child>),
        Map(i64, usize, Vec<(String, Child)>, String),
        Vec(usize, Vec<Node>),
    }
    let mut st: Vec<F> = vec![];
    let mut n = 0;
    for t in toks {
        let l = t.list();
        let kind = l[0].str();
        if kind == "k" {
            match st.last_mut() {
                Some(F::Map(_, _, _, k)) => *k = String::from_utf8(l[1].as_bytes()).unwrap(),
                _ => panic!("misplaced key"),
            }
            continue;
        }
        n += 1;
        let plain = matches!(st.last(), Some(F::Vec(..)));
        let mut done = None;
        match kind {
            "a" if s.kind(n) == 4 && n > 1 && !plain => st.push(F::Vec(l[1].int() as usize, vec![])),
            "a" => st.push(F::Seq(n, l[1].int() as usize, vec![])),
            "o" => st.push(F::Map(n, l[1].int() as usize, vec![], String::new())),
            "null" if matches!(s.kind(n), 2 | 3) && n > 1 && !plain => done = Some(Child::Absent(None)),
            _ => done = Some(Child::Node(Node { s: s.clone(), n, data: Data::Scalar(t.clone()) })),
        }
        loop {
            if let Some(c) = done.take() {
                match (st.last_mut(), c) {
                    (None, Child::Node(n)) => return n,
                    (Some(F::Vec(_, v)), Child::Node(n)) => v.push(n),
                    (Some(F::Seq(_, _, v)), c) => v.push(wrap(s, c)),
                    (Some(F::Map(_, _, v, k)), c) => v.push((std::mem::take(k), wrap(s, c))),
                    _ => unreachable!(),
                }
            }
            let full = match st.last() {
                Some(F::Seq(_, c, v)) => v.len() == *c,
                Some(F::Vec(c, v)) => v.len() == *c,
                Some(F::Map(_, c, v, _)) => v.len() == *c,
                None => false,
            };
            if !full {
                break;
            }
            done = Some(match st.pop().unwrap() {
                F::Seq(n, _, v) => Child::Node(Node { s: s.clone(), n, data: Data::Seq(v) }),
                F::Map(n, _, v, _) => Child::Node(Node { s: s.clone(), n, data: Data::Map(v) }),
                F::Vec(_, v) => Child::Vec(v),
            });
        }
    }
    panic!("incomplete tokens");
}

fn wrap(s: &Sess, c: Child) -> Child {
    let n = match c {
        Child::Node(n) => n,
        c => return c,
    };
    match s.kind(n.n) {
        1 => Child::Boxed(Box::new(n)),
        2 => Child::Opt(Some(n)),
        3 => Child::BoxOpt(Box::new(Some(Box::new(n)))),
        _ => Child::Node(n),
    }
}

fn num(d: &Term) -> u64 {
    let s: String = d.list().iter().map(|x| x.int().to_string()).collect();
    if s.is_empty() {
        0
    } else {
        s.parse().unwrap()
    }
}

impl Serialize for Node {
    fn begin(&self) -> Fragment {
        if self.s.call(tag("begin", vec![i(self.n)]), None).is_err() {
            unreachable!()
        }
        match &self.data {
            Data::Scalar(t) => {
                let l = t.list();
                match l[0].str() {
                    "null" => Fragment::Null,
                    "b" => Fragment::Bool(l[1].int() == 1),
                    "u" => Fragment::U64(num(&l[1])),
                    "i" => Fragment::I64((num(&l[2]) as i64).wrapping_neg()),
                    "s" => {
                        let x = String::from_utf8(l[1].as_bytes()).unwrap();
                        Fragment::Str(Cow::Owned(x))
                    }
                    _ => unreachable!(),
                }
            }
            Data::Seq(v) => Fragment::Seq(Box::new(Stream { node: self, k: 0, len: v.len(), held: None })),
            Data::Map(v) => Fragment::Map(Box::new(Stream { node: self, k: 0, len: v.len(), held: None })),
        }
    }
}

/// Items are lent through the stream itself, as the trait allows.
struct Held<'a>(&'a dyn Serialize, #[allow(dead_code)] Vec<u8>);
impl Serialize for Held<'_> {
    fn begin(&self) -> Fragment {
        self.0.begin()
    }
}
struct Stream<'a> {
    node: &'a Node,
    k: usize,
    len: usize,
    held: Option<Box<Held<'a>>>,
}
impl<'a> Stream<'a> {
    fn step(&mut self) -> Option<usize> {
        let more = self.k < self.len;
        let _ = self.node.s.call(tag("next", vec![i(self.node.n), i(more as i64)]), None);
        self.k += 1;
        self.held = None;
        more.then_some(self.k - 1)
    }
    fn lend(&mut self, x: &'a dyn Serialize) -> &dyn Serialize {
        self.held = Some(Box::new(Held(x, vec![7; 32])));
        &**self.held.as_ref().unwrap()
    }
}
impl ser::Seq for Stream<'_> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        let k = self.step()?;
        let node = self.node;
        match &node.data {
            Data::Seq(v) => Some(self.lend(v[k].ser())),
            _ => unreachable!(),
        }
    }
}
impl ser::Map for Stream<'_> {
    fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
        let k = self.step()?;
        let node = self.node;
        match &node.data {
            Data::Map(v) => {
                let (key, c) = &v[k];
                let key = if k % 2 == 0 { Cow::Owned(key.clone()) } else { Cow::Borrowed(&key[..]) };
                Some((key, self.lend(c.ser())))
            }
            _ => unreachable!(),
        }
    }
}
impl Drop for Stream<'_> {
    fn drop(&mut self) {
        self.node.s.note(tag("drop", vec![i(self.node.n)]));
    }
}

/// Take a deep value apart without recursion.
pub fn dismantle(n: Node) {
    let mut st = vec![Child::Node(n)];
    while let Some(c) = st.pop() {
        let n = match c {
            Child::Node(n) => n,
            Child::Boxed(n) => *n,
            Child::Opt(Some(n)) => n,
            Child::BoxOpt(b) => match *b {
                Some(n) => *n,
                None => continue,
            },
            Child::Vec(v) => {
                st.extend(v.into_iter().map(Child::Node));
                continue;
            }
            _ => continue,
        };
        match n.data {
            Data::Seq(v) => st.extend(v),
            Data::Map(v) => st.extend(v.into_iter().map(|x| x.1)),
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ sessions

/// Run one call; the record is
///   <<"r", text, plan, fault, faultkind, log, outcome, nested records>>
///   <<"w", flat, plan, fault, faultkind, log, outcome, nested records, text>>
///   <<"v", text, outcome, flat>>
pub fn run_job(j: &Job, baton: Option<(Arc<Baton>, usize)>) -> Term {
    if let What::Value(text) = &j.what {
        let r = catch_unwind(|| miniserde::json::from_str::<Value>(text));
        let (st, flat) = match r {
            Err(_) => ("panic", Term::L(vec![])),
            Ok(Err(_)) => ("err", Term::L(vec![])),
            Ok(Ok(v)) => ("ok", crate::flat::value_term(&v)),
        };
        return tag("v", vec![bytes(text.as_bytes()), crate::term::s(st), flat]);
    }
    let s = Sess::new(j.plan.clone(), j.fault, j.nest.clone(), baton);
    let depth = CUR.with(|c| {
        c.borrow_mut().push(s.clone());
        c.borrow().len()
    });
    let mut text_out = String::new();
    let ret = match &j.what {
        What::Read(text) => {
            let k = s.kind(1);
            let r = catch_unwind(AssertUnwindSafe(|| match k {
                3 => miniserde::json::from_str::<Box<Tok>>(text).is_ok(),
                4 => miniserde::json::from_str::<Option<Tok>>(text).is_ok(),
                5 => miniserde::json::from_str::<Option<Box<Tok>>>(text).is_ok(),
                6 => miniserde::json::from_str::<Box<Option<Tok>>>(text).is_ok(),
                _ => miniserde::json::from_str::<Root>(text).is_ok(),
            }));
            match r {
                Ok(true) => "ok",
                Ok(false) => "err",
                Err(_) => "panic",
            }
        }
        What::Write(value) => {
            let node = build(&s, value);
            let r = catch_unwind(AssertUnwindSafe(|| miniserde::json::to_string(&node)));
            dismantle(node);
            match r {
                Ok(t) => {
                    text_out = t;
                    "ok"
                }
                Err(_) => "panic",
            }
        }
        What::Value(_) => unreachable!(),
    };
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        assert_eq!(c.len(), depth);
        c.pop();
    });
    let log = Term::L(s.log.borrow_mut().drain(..).collect());
    let subs = Term::L(s.subs.borrow_mut().drain(..).collect());
    let mut rec = match j.term() {
        Term::L(v) => v,
        _ => unreachable!(),
    };
    rec.pop();
    rec.extend([log, crate::term::s(ret), subs]);
    if let What::Write(_) = j.what {
        rec.push(bytes(text_out.as_bytes()));
    }
    Term::L(rec)
}
