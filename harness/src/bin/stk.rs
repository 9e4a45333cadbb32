//! How much native stack the library uses on data of growing depth.
//!   stk --depths 8,64,1000,30000 --seed S --out FILE
//! One record per scenario:
//!   <<operation, target, shape, ending, <<<<depth, outcome, high, points>>, ...>>>>
//! where high is the most stack used, in bytes, and points are <<kind of
//! callback, least, most>> extents seen inside callbacks of user types.
use mh::rng::Rng;
use mh::run::{arg, init, num, Out, Runner};
use mh::term::{i, s, Term};
use miniserde::de::{Map, Seq, Visitor};
use miniserde::json::{self, Array, Object, Value};
use miniserde::ser::{self, Fragment};
use miniserde::{make_place, Deserialize, Error, Result, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::mem::{forget, ManuallyDrop};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------- a measured stack
extern "C" {
    fn mmap(a: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mincore(a: *mut c_void, len: usize, v: *mut u8) -> i32;
    fn munmap(a: *mut c_void, len: usize) -> i32;
    fn pthread_attr_init(a: *mut c_void) -> i32;
    fn pthread_attr_setstack(a: *mut c_void, addr: *mut c_void, size: usize) -> i32;
    fn pthread_create(t: *mut usize, a: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, x: *mut c_void) -> i32;
    fn pthread_join(t: usize, r: *mut *mut c_void) -> i32;
}

thread_local! {
    static BASE: Cell<usize> = const { Cell::new(0) };
    static POINTS: RefCell<Vec<(&'static str, usize, usize)>> = const { RefCell::new(vec![]) };
}

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

/// Called in callbacks of user types.
fn point(kind: &'static str) {
    let e = BASE.with(|b| b.get()).saturating_sub(here());
    POINTS.with(|p| {
        let mut p = p.borrow_mut();
        match p.iter_mut().find(|x| x.0 == kind) {
            Some(x) => {
                x.1 = x.1.min(e);
                x.2 = x.2.max(e);
            }
            None => p.push((kind, e, e)),
        }
    });
}

struct Go<'a> {
    f: Option<Box<dyn FnOnce() -> &'static str + 'a>>,
    outcome: &'static str,
    base: usize,
    points: Vec<(&'static str, usize, usize)>,
}
extern "C" fn enter(x: *mut c_void) -> *mut c_void {
    let g = unsafe { &mut *(x as *mut Go) };
    // before measuring: touch what is set up once per thread
    POINTS.with(|p| p.borrow_mut().reserve(32));
    let _ = catch_unwind(|| std::panic::resume_unwind(Box::new(1)));
    g.base = here();
    BASE.with(|b| b.set(g.base));
    let f = g.f.take().unwrap();
    g.outcome = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => "panic",
    };
    g.points = POINTS.with(|p| std::mem::take(&mut *p.borrow_mut()));
    std::ptr::null_mut()
}
fn measured<'a>(size: usize, f: impl FnOnce() -> &'static str + 'a) -> (&'static str, usize, Vec<(&'static str, usize, usize)>) {
    unsafe {
        let guard = 1 << 20;
        let m = mmap(std::ptr::null_mut(), size + guard, 3, 0x22 | 0x4000, -1, 0);
        assert!(m as isize != -1, "mmap");
        // an inaccessible page below
        assert!(mmap(m, guard, 0, 0x32 | 0x4000, -1, 0) == m);
        let low = (m as usize + guard) as *mut c_void;
        let mut attr = [0u64; 16];
        let a = attr.as_mut_ptr() as *mut c_void;
        assert!(pthread_attr_init(a) == 0 && pthread_attr_setstack(a, low, size) == 0);
        let mut g = Go { f: Some(Box::new(f)), outcome: "?", base: 0, points: vec![] };
        let mut t = 0usize;
        assert!(pthread_create(&mut t, a, enter, &mut g as *mut Go as *mut c_void) == 0);
        assert!(pthread_join(t, std::ptr::null_mut()) == 0);
        // pages never touched are not resident
        let mut here = vec![0u8; size / 4096];
        assert!(mincore(low, size, here.as_mut_ptr()) == 0);
        let page = here.iter().position(|p| p & 1 == 1).unwrap_or(0);
        let words = std::slice::from_raw_parts(low as *const u64, size / 8);
        let first = page * 512 + words[page * 512..].iter().position(|w| *w != 0).unwrap_or(0);
        let high = g.base - (low as usize + first * 8).min(g.base);
        munmap(m, size + guard);
        (g.outcome, high, g.points)
    }
}

// --------------------------------------------------------- recursive types
#[derive(Serialize, Deserialize)]
struct ROpt {
    next: Option<Box<ROpt>>,
}
#[derive(Serialize, Deserialize)]
struct RVec {
    k: Vec<RVec>,
}
#[derive(Serialize, Deserialize)]
struct RMap {
    m: BTreeMap<String, RMap>,
}
#[derive(Serialize, Deserialize)]
struct RTup {
    t: Option<Box<(RTup, bool)>>,
}
#[derive(Serialize, Deserialize)]
struct RTup2 {
    t: Option<Box<(u8, RTup2)>>,
}
#[derive(Serialize, Deserialize)]
struct RArr {
    a: Option<Box<[RArr; 1]>>,
}
#[derive(Serialize, Deserialize)]
struct RArr2 {
    a: Vec<[RArr2; 2]>,
}
#[derive(Serialize, Deserialize)]
struct ROptOpt {
    n: Option<Option<Vec<Option<Box<ROptOpt>>>>>,
}
#[derive(Serialize, Deserialize)]
struct Two {
    #[serde(rename = "x")]
    left: Option<Box<Two>>,
    #[serde(rename = "y")]
    right: Option<Box<Two>>,
}
#[derive(Serialize, Deserialize)]
struct Holder {
    before: Option<u8>,
    v: Value,
    after: Option<u8>,
}
#[derive(Deserialize)]
struct Ign {
    #[allow(dead_code)]
    a: Option<u8>,
}

// ----------------------------------------------------------- user callbacks
thread_local! {
    static FAULT: Cell<u8> = const { Cell::new(0) };
}
struct User;
make_place!(Place);
fn deepest() -> Result<()> {
    match FAULT.with(|f| f.get()) {
        1 => Err(Error),
        2 => std::panic::resume_unwind(Box::new(2)),
        _ => Ok(()),
    }
}
macro_rules! leafs {
    ($($m:ident $t:ty),*) => { $(fn $m(&mut self, _: $t) -> Result<()> { point(stringify!($m)); deepest() })* };
}
impl Visitor for Place<User> {
    fn null(&mut self) -> Result<()> {
        point("null");
        deepest()
    }
    leafs!(boolean bool, string &str, negative i64, nonnegative u64, float f64);
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        point("seq");
        Ok(Box::new(UserSeq { out: &mut self.out, el: None }))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        point("map");
        Ok(Box::new(UserSeq { out: &mut self.out, el: None }))
    }
}
impl Deserialize for User {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        point("begin");
        Place::new(out)
    }
}
struct UserSeq<'a> {
    out: &'a mut Option<User>,
    el: Option<User>,
}
impl Drop for UserSeq<'_> {
    fn drop(&mut self) {
        point("drop");
    }
}
impl Seq for UserSeq<'_> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        point("element");
        Ok(Deserialize::begin(&mut self.el))
    }
    fn finish(&mut self) -> Result<()> {
        point("finish");
        *self.out = Some(User);
        Ok(())
    }
}
impl Map for UserSeq<'_> {
    fn key(&mut self, _: &str) -> Result<&mut dyn Visitor> {
        point("key");
        Ok(Deserialize::begin(&mut self.el))
    }
    fn finish(&mut self) -> Result<()> {
        point("mfinish");
        *self.out = Some(User);
        Ok(())
    }
}

/// A value that unfolds as it is written.
struct Unfold {
    left: usize,
    maps: bool,
}
impl Serialize for Unfold {
    fn begin(&self) -> Fragment<'_> {
        point("wbegin");
        if self.left == 0 {
            if FAULT.with(|f| f.get()) == 2 {
                std::panic::resume_unwind(Box::new(3));
            }
            return Fragment::Null;
        }
        let st = Box::new(UnfoldStream { el: Unfold { left: self.left - 1, maps: self.maps }, n: 0 });
        if self.maps {
            Fragment::Map(st)
        } else {
            Fragment::Seq(st)
        }
    }
}
struct UnfoldStream {
    el: Unfold,
    n: usize,
}
impl Drop for UnfoldStream {
    fn drop(&mut self) {
        point("wdrop");
    }
}
impl ser::Seq for UnfoldStream {
    fn next(&mut self) -> Option<&dyn Serialize> {
        point("wnext");
        self.n += 1;
        if self.n == 1 {
            Some(&self.el)
        } else {
            None
        }
    }
}
impl ser::Map for UnfoldStream {
    fn next(&mut self) -> Option<(std::borrow::Cow<'_, str>, &dyn Serialize)> {
        point("wnext");
        self.n += 1;
        if self.n == 1 {
            Some(("a".into(), &self.el))
        } else {
            None
        }
    }
}

// ------------------------------------------------------------------ shapes
/// What each level opens and closes with, cyclically, and the innermost value.
struct Shape {
    name: String,
    levels: Vec<(String, String)>,
    inner: String,
}
fn shape(name: &str, levels: &[(&str, &str)], inner: &str) -> Shape {
    Shape { name: name.into(), levels: levels.iter().map(|l| (l.0.into(), l.1.into())).collect(), inner: inner.into() }
}
impl Shape {
    fn text(&self, depth: usize, ending: &str) -> String {
        let mut o = String::new();
        for k in 0..depth {
            o.push_str(&self.levels[k % self.levels.len()].0);
        }
        match ending {
            "truncated" => return o,
            "badinner" => {
                o.push_str("[x");
                return o;
            }
            _ => {}
        }
        o.push_str(&self.inner);
        if ending == "truncated-after" {
            return o;
        }
        for k in (0..depth).rev() {
            let c = &self.levels[k % self.levels.len()].1;
            if ending == "mismatched" && k == depth - 1 {
                let swapped: String = c.chars().map(|x| match x { ']' => '}', '}' => ']', x => x }).collect();
                o.push_str(&swapped);
                continue;
            }
            if k == depth / 2 && ending == "halfway" {
                o.push_str(" nonsense");
            }
            o.push_str(c);
        }
        match ending {
            "trailing" => o.push_str(" ]"),
            _ => {}
        }
        o
    }
}
fn value_shapes(r: &mut Rng) -> Vec<Shape> {
    let mut v = vec![
        shape("arrays", &[("[", "]")], "null"),
        shape("objects", &[("{\"a\":", "}")], "1"),
        shape("mixed", &[("[", "]"), ("{\"a\":", "}")], "\"s\""),
        shape("last of several", &[("[1,[],{},", "]")], "[]"),
        shape("first of several", &[("[", ",1,[[]],{\"a\":[]}]")], "{}"),
        shape("first member", &[("{\"a\":", ",\"b\":[],\"c\":{\"d\":1}}")], "true"),
        shape("last member", &[("{\"a\":[1,2],\"b\":", "}")], "false"),
        shape("middle", &[("[[],", ",{}]"), ("{\"a\":{},\"b\":", ",\"c\":[null]}")], "-1"),
    ];
    for k in 0..3 {
        let mut levels = vec![];
        for _ in 0..r.range(2, 7) {
            levels.push(match r.below(6) {
                0 => ("[".to_string(), "]".to_string()),
                1 => ("{\"k\":".into(), "}".into()),
                2 => ("[[[]],".into(), ",[{\"a\":1}]]".into()),
                3 => ("{\"a\":[{}],\"k\":".into(), ",\"z\":[]}".into()),
                4 => ("[".into(), ",\"x\"]".into()),
                _ => ("{\"\":{\"\":{}},\"k\":".into(), "}".into()),
            });
        }
        v.push(Shape { name: format!("random {}", k), levels, inner: "[[],{}]".into() });
    }
    v
}

/// The path down leads past siblings of one kind, on one side, in many ways.
fn sibling_shapes(r: &mut Rng) -> Vec<Shape> {
    let mut v = vec![];
    for sib in ["null", "true", "7", "-7", "1.5", "\"s\"", "\"\"", "[]", "{}", "[[]]", "{\"a\":1}"] {
        v.push(shape(&format!("element before {}", sib), &[("[", &format!(",{}]", sib))], "0"));
        v.push(shape(&format!("element after {}", sib), &[(&format!("[{},", sib), "]")], "0"));
        v.push(shape(&format!("member before {}", sib), &[("{\"k\":", &format!(",\"z\":{}}}", sib))], "0"));
        v.push(shape(&format!("member after {}", sib), &[(&format!("{{\"a\":{},\"k\":", sib), "}")], "0"));
        v.push(shape(&format!("between {}", sib), &[(&format!("[{0},{0},", sib), &format!(",{}]", sib)), (&format!("{{\"a\":{},\"k\":", sib), &format!(",\"z\":{}}}", sib))], "[]"));
    }
    for n in [3usize, 4, 8, 9, 16, 17] {
        let many = vec!["0"; n].join(",");
        v.push(shape(&format!("last of {}", n + 1), &[(&format!("[{},", many), "]")], "0"));
        v.push(shape(&format!("first of {}", n + 1), &[("[", &format!(",{}]", many))], "0"));
        let members = |p: &str| (0..n).map(|k| format!("\"{}{:02}\":{}", p, k, "{}")).collect::<Vec<_>>().join(",");
        v.push(shape(&format!("last of {} members", n + 1), &[(&format!("{{{},\"k\":", members("a")), "}")], "0"));
        v.push(shape(&format!("first of {} members", n + 1), &[("{\"k\":", &format!(",{}}}", members("z")))], "0"));
    }
    for inner in ["[]", "{}", "\"s\"", "[1,2,3]", "[[],[]]"] {
        v.push(shape(&format!("arrays around {}", inner), &[("[", "]")], inner));
        v.push(shape(&format!("objects around {}", inner), &[("{\"a\":", "}")], inner));
        v.push(shape(&format!("alternating around {}", inner), &[("{\"a\":", "}"), ("[", "]")], inner));
        v.push(shape(&format!("pairs around {}", inner), &[("[", "]"), ("[", "]"), ("{\"\":", "}"), ("{\"\":", "}"), ("{\"\":", "}")], inner));
    }
    for k in v.len()..v.len() + 12 {
        let mut levels = vec![];
        for _ in 0..r.range(1, 4) {
            let mut sibs = |left: &str, n: usize, key: bool| -> Vec<String> {
                (0..n).map(|j| format!("{}{}", if key { format!("\"{}{}\":", left, j) } else { String::new() }, *r.pick(&["null", "1", "\"\"", "[]", "{}", "[0]", "[[]]", "{\"\":[]}", "false"]))).collect()
            };
            let key = k % 3 == 0;
            let (a, b) = (k % 2 * 2, k / 2 % 3);
            let (mut pre, mut post) = (sibs("a", a, key), sibs("z", b, key));
            pre.push(if key { "\"k\":".into() } else { String::new() });
            post.insert(0, String::new());
            let (o, c) = if key { ('{', '}') } else { ('[', ']') };
            levels.push((format!("{}{}", o, pre.join(",")), format!("{}{}", post.join(","), c)));
        }
        v.push(Shape { name: format!("siblings {}", k), levels, inner: "[]".into() });
    }
    v
}

/// Many siblings at every level; to moderate depths only.
fn crowded_shapes() -> Vec<(Shape, Vec<usize>)> {
    let mut v = vec![];
    for (w, most) in [(33usize, 10_000usize), (70, 6_000), (140, 3_000), (300, 2_000), (1_100, 900), (4_200, 250), (70_000, 0)] {
        let depths: Vec<usize> = if most == 0 { vec![3, 8, 48] } else { vec![8, 64, most] };
        for (pos, name) in [(0, "first"), (w / 2, "middle"), (w, "last")] {
            let sib = |k: usize| ["0", "[]", "null", "{}", "\"s\""][if w < 1000 { k % 5 } else { 0 }];
            let elements = |a: usize, b: usize| (a..b).map(|k| sib(k).to_string()).collect::<Vec<_>>().join(",");
            let members = |a: usize, b: usize| (a..b).map(|k| format!("\"{:05}\":{}", k, sib(k))).collect::<Vec<_>>().join(",");
            let comma = |x: bool| if x { "," } else { "" };
            let (before, after) = (comma(pos > 0), comma(pos < w));
            v.push((shape(&format!("{} of {}", name, w + 1), &[(&format!("[{}{}", elements(0, pos), before), &format!("{}{}]", after, elements(pos, w)))], "[]"), depths.clone()));
            if w < 10_000 {
                // its name comes where its place in the text is
                v.push((shape(&format!("{} of {} members", name, w + 1), &[(&format!("{{{}{}\"{:05}k\":", members(0, pos), before, pos as i64 - 1), &format!("{}{}}}", after, members(pos, w)))], "[]"), depths.clone()));
            }
        }
    }
    // one crowd only: innermost, or half way
    for n in [1_000usize, 5_000, 70_000] {
        let zeros = vec!["0"; n].join(",");
        v.push((shape(&format!("arrays around {}", n), &[("[", "]")], &format!("[{}]", zeros)), vec![]));
        v.push((shape(&format!("objects around {}", n), &[("{\"a\":", "}")], &format!("[{}]", zeros)), vec![]));
    }
    v
}

struct Rec<'a> {
    o: &'a mut Out,
    run: &'a Runner,
    depths: Vec<usize>,
    size: usize,
    n: usize,
    part: usize,
    parts: usize,
}
impl Rec<'_> {
    fn scenario(&mut self, op: &str, target: &str, shape: &str, ending: &str, mut f: impl FnMut(usize) -> Box<dyn FnOnce() -> &'static str>) {
        self.n += 1;
        if self.n % self.parts != self.part {
            return;
        }
        let mut runs = vec![];
        // the first run also pays for what is set up once
        let d0 = self.depths[0];
        let mut ds = vec![d0];
        ds.extend(&self.depths);
        for (k, d) in ds.into_iter().enumerate() {
            let what = format!("{} {} {} {} depth {}", op, target, shape, ending, d);
            let size = if d < 5000 { self.size.min(4 << 20) } else { self.size };
            let g = f(d);
            let (outcome, high, points) = self.run.case(what.as_bytes(), move || measured(size, g)).expect("the recorder panicked");
            if k > 0 {
                let pts = points.iter().map(|p| Term::L(vec![s(p.0), i(p.1 as i64), i(p.2 as i64)])).collect();
                runs.push(Term::L(vec![i(d as i64), s(outcome), i(high as i64), Term::L(pts)]));
            }
        }
        self.o.put(&Term::L(vec![s(op), s(target), s(shape), s(ending), Term::L(runs)]));
    }
    fn reads<T: Deserialize + 'static>(&mut self, target: &str, sh: &Shape, wrap: (&str, &str), endings: &[&str]) {
        for e in endings {
            self.scenario("read", target, &sh.name, e, |d| {
                let core = sh.text(d, e);
                let t = match *e {
                    "truncated" | "truncated-after" | "badinner" => format!("{}{}", wrap.0, core),
                    _ => format!("{}{}{}", wrap.0, core, wrap.1),
                };
                Box::new(move || match json::from_str::<T>(&t) {
                    Ok(v) => {
                        // its destruction is another matter
                        forget(v);
                        "ok"
                    }
                    Err(_) => "err",
                })
            });
        }
    }
    fn writes<T: Serialize + Deserialize + 'static>(&mut self, target: &str, sh: &Shape, wrap: (&str, &str)) {
        self.scenario("write", target, &sh.name, "complete", |d| {
            let t = format!("{}{}{}", wrap.0, sh.text(d, "complete"), wrap.1);
            let v = ManuallyDrop::new(json::from_str::<T>(&t).ok());
            Box::new(move || match &*v {
                None => "unreadable",
                Some(v) => {
                    if json::to_string(v) == t {
                        "ok"
                    } else {
                        "differs"
                    }
                }
            })
        });
    }
}

const ALL: &[&str] = &["complete", "truncated", "truncated-after", "badinner", "mismatched", "halfway", "trailing"];
const OPEN: &[&str] = &["complete", "truncated", "truncated-after", "badinner", "mismatched"];

type Dropper = (&'static str, fn(Value, Value));
fn array(vs: Vec<Value>) -> Array {
    vs.into_iter().collect()
}
fn object(vs: Vec<Value>) -> Object {
    vs.into_iter().enumerate().map(|(k, v)| (format!("{}", k), v)).collect()
}
fn droppers() -> Vec<Dropper> {
    vec![
        ("itself", |v, _| drop(v)),
        ("in a box", |v, _| drop(Box::new(v))),
        ("in an option", |v, _| drop(Some(v))),
        ("in a vector", |v, w| drop(vec![v, Value::Null, w])),
        ("in a tuple", |v, w| drop((v, 1, w))),
        ("in a map", |v, w| drop(BTreeMap::from([("a".to_string(), v), ("b".to_string(), w)]))),
        ("in an rc", |v, _| drop(std::rc::Rc::new(v))),
        ("only element", |v, _| drop(array(vec![v]))),
        ("first element", |v, _| drop(array(vec![v, Value::Null]))),
        ("last element", |v, _| drop(array(vec![Value::Null, v]))),
        ("two elements", |v, w| drop(array(vec![v, w]))),
        ("only member", |v, _| drop(object(vec![v]))),
        ("two members", |v, w| drop(object(vec![v, Value::Bool(true), w]))),
        ("array in value", |v, w| drop(Value::Array(array(vec![v, w])))),
        ("object in value", |v, w| drop(Value::Object(object(vec![v, w])))),
        ("overwritten", |v, w| {
            let mut x = v;
            if let Value::Null = x {
                return;
            }
            x = w;
            drop(x)
        }),
        ("clear", |v, w| {
            let mut a = array(vec![v, w]);
            a.clear();
        }),
        ("pop", |v, w| {
            let mut a = array(vec![v, w]);
            drop(a.pop());
        }),
        ("remove", |v, w| {
            let mut a = array(vec![v, w]);
            drop(a.remove(0));
        }),
        ("swap_remove", |v, w| {
            let mut a = array(vec![v, w]);
            drop(a.swap_remove(0));
        }),
        ("truncate", |v, w| {
            let mut a = array(vec![v, w]);
            a.truncate(1);
        }),
        ("drain", |v, w| {
            let mut a = array(vec![v, w]);
            a.drain(..1);
        }),
        ("retain", |v, w| {
            let mut a = array(vec![v, w]);
            a.retain(|x| !matches!(x, Value::Array(_)));
        }),
        ("replace element", |v, w| {
            let mut a = array(vec![v, w]);
            a[1] = Value::Null;
        }),
        ("take", |v, w| {
            let mut a = array(vec![v, w]);
            drop(std::mem::take(&mut a));
        }),
        ("clone_from", |v, w| {
            let mut a = array(vec![v, w]);
            a.clone_from(&Array::new());
        }),
        ("consumed", |v, w| {
            for x in array(vec![v, w]) {
                drop(x);
            }
        }),
        ("half consumed", |v, w| {
            let mut it = array(vec![Value::Null, v, w]).into_iter();
            drop(it.next());
        }),
        ("untouched iterator", |v, w| drop(array(vec![v, w]).into_iter())),
        ("object clear", |v, w| {
            let mut a = object(vec![v, w]);
            a.clear();
        }),
        ("object remove", |v, w| {
            let mut a = object(vec![v, w]);
            drop(a.remove("0"));
        }),
        ("object insert", |v, w| {
            let mut a = object(vec![v]);
            a.insert("0".into(), w);
        }),
        ("object pop_last", |v, w| {
            let mut a = object(vec![v, w]);
            drop(a.pop_last());
        }),
        ("object consumed", |v, w| {
            for x in object(vec![v, w]) {
                drop(x);
            }
        }),
        ("object half consumed", |v, w| {
            let mut it = object(vec![Value::Null, v, w]).into_iter();
            drop(it.next());
        }),
        ("object take", |v, w| {
            let mut a = object(vec![v, w]);
            drop(std::mem::take(&mut a));
        }),
        ("object clone_from", |v, w| {
            let mut a = object(vec![v, w]);
            a.clone_from(&Object::new());
        }),
        ("object retain", |v, w| {
            let mut a = object(vec![v, w]);
            a.retain(|k, _| k == "1");
        }),
        ("unwinding", |v, w| {
            let _a = array(vec![v]);
            let _b = object(vec![w]);
            std::panic::resume_unwind(Box::new(4));
        }),
        ("inner taken out", |v, w| {
            let mut a = array(vec![w]);
            if let Value::Array(x) = v {
                a.extend(x);
            } else {
                a.push(v);
            }
        }),
    ]
}

fn main() {
    let outp = arg("out").unwrap();
    init(&outp, 60);
    let depths: Vec<usize> = arg("depths").unwrap().split(',').map(|x| x.parse().unwrap()).collect();
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let size = (num("stack", 64) as usize) << 20;
    let mut r = Rng::new(num("seed", 1));
    let shapes = value_shapes(&mut r);
    let mut c = Rec { o: &mut o, run: &run, depths, size, n: 0, part: num("part", 0) as usize, parts: num("parts", 1) as usize };
    for sh in &shapes {
        c.reads::<Value>("Value", sh, ("", ""), ALL);
        c.reads::<Ign>("ignored member", sh, ("{\"a\":1,\"zz\":", ",\"b\":2}"), ALL);
        c.reads::<Box<Option<Value>>>("Box<Option<Value>>", sh, ("", ""), ALL);
        c.reads::<Vec<Value>>("Vec<Value>", sh, ("[1,", ",[]]"), ALL);
        c.reads::<(Value, Value)>("(Value, Value)", sh, ("[[[1]],", "]"), ALL);
        c.reads::<[Value; 2]>("[Value; 2]", sh, ("[", ",{}]"), ALL);
        c.reads::<BTreeMap<String, Value>>("BTreeMap<String, Value>", sh, ("{\"q\":", "}"), ALL);
        c.reads::<Holder>("Holder", sh, ("{\"v\":", ",\"after\":1}"), ALL);
        c.reads::<Array>("Array", sh, ("[", "]"), OPEN);
        c.reads::<Object>("Object", sh, ("{\"q\":", "}"), OPEN);
        c.reads::<User>("user visitors", sh, ("", ""), ALL);
        c.reads::<Vec<User>>("Vec of user visitors", sh, ("[", "]"), OPEN);
        c.reads::<Option<Box<User>>>("boxed user visitors", sh, ("", ""), OPEN);
        c.writes::<Value>("Value", sh, ("", ""));
        c.writes::<Vec<Value>>("Vec<Value>", sh, ("[1,", ",[]]"));
        c.writes::<BTreeMap<String, Value>>("BTreeMap<String, Value>", sh, ("{\"q\":", "}"));
        c.writes::<Box<Option<Value>>>("Box<Option<Value>>", sh, ("", ""));
        c.writes::<Holder>("Holder", sh, ("{\"before\":1,\"v\":", ",\"after\":null}"));
        c.writes::<Array>("Array", sh, ("[", "]"));
        c.writes::<Object>("Object", sh, ("{\"q\":", "}"));
        for (kind, name) in [(1, "error"), (2, "panic")] {
            // the innermost value's callback fails, with everything still open
            c.scenario("read", "user visitors", &sh.name, name, |d| {
                let t = sh.levels.iter().all(|l| l.0.len() < 2 || l.0.contains("\"a\":") && l.0.len() == 5).then(|| sh.text(d, "complete")).unwrap_or_else(|| shape("", &[("[", "]")], "1").text(d, "complete"));
                Box::new(move || {
                    FAULT.with(|f| f.set(kind));
                    let r = json::from_str::<User>(&t).is_ok();
                    if r {
                        "ok"
                    } else {
                        "err"
                    }
                })
            });
        }
    }
    for maps in [false, true] {
        for (kind, name) in [(0, "complete"), (2, "panic")] {
            c.scenario("write", "user streams", if maps { "maps" } else { "sequences" }, name, |d| {
                Box::new(move || {
                    FAULT.with(|f| f.set(kind));
                    let t = json::to_string(&Unfold { left: d, maps });
                    if t.len() == 4 + d * if maps { 6 } else { 2 } {
                        "ok"
                    } else {
                        "differs"
                    }
                })
            });
        }
    }
    let nil = |n: &str, l: &[(&str, &str)], i: &str| shape(n, l, i);
    macro_rules! rec {
        ($t:ident, $l:expr, $i:expr) => {{
            let sh = nil("recursive", $l, $i);
            c.reads::<$t>(stringify!($t), &sh, ("", ""), OPEN);
            c.reads::<Vec<$t>>(concat!("Vec of ", stringify!($t)), &sh, ("[", "]"), OPEN);
            c.writes::<$t>(stringify!($t), &sh, ("", ""));
            c.writes::<Option<Box<$t>>>(concat!("optional ", stringify!($t)), &sh, ("", ""));
        }};
    }
    rec!(ROpt, &[("{\"next\":", "}")], "{\"next\":null}");
    rec!(RVec, &[("{\"k\":[", "]}")], "{\"k\":[]}");
    rec!(RVec, &[("{\"k\":[{\"k\":[]},", "]}")], "{\"k\":[]}");
    rec!(RVec, &[("{\"k\":[", ",{\"k\":[]},{\"k\":[{\"k\":[]}]}]}")], "{\"k\":[]}");
    rec!(RMap, &[("{\"m\":{\"a\":", "}}")], "{\"m\":{}}");
    rec!(RMap, &[("{\"m\":{\"a\":", ",\"b\":{\"m\":{}}}}")], "{\"m\":{}}");
    rec!(RTup, &[("{\"t\":[", ",true]}")], "{\"t\":null}");
    rec!(RTup2, &[("{\"t\":[1,", "]}")], "{\"t\":null}");
    rec!(RArr, &[("{\"a\":[", "]}")], "{\"a\":null}");
    rec!(RArr2, &[("{\"a\":[[{\"a\":[]},", "]]}")], "{\"a\":[]}");
    rec!(RArr2, &[("{\"a\":[[", ",{\"a\":[]}]]}")], "{\"a\":[]}");
    rec!(ROptOpt, &[("{\"n\":[null,", "]}")], "{\"n\":null}");
    rec!(Two, &[("{\"x\":", ",\"y\":null}"), ("{\"x\":null,\"y\":", "}")], "{\"x\":null,\"y\":null}");
    let sh = nil("with ignored members", &[("{\"zz\":[[],{\"a\":{}}],\"next\":", ",\"b\":[1]}")], "{}");
    c.reads::<ROpt>("ROpt", &sh, ("", ""), OPEN);

    for sh in &shapes {
        let w = &shapes[r.below(shapes.len())];
        for (name, f) in droppers() {
            c.scenario("drop", name, &sh.name, "complete", |d| {
                let v: Value = json::from_str(&sh.text(d, "complete")).unwrap_or(Value::Null);
                let w: Value = json::from_str(&w.text(d, "complete")).unwrap_or(Value::Null);
                Box::new(move || {
                    f(v, w);
                    "ok"
                })
            });
        }
    }
    for sh in &sibling_shapes(&mut r) {
        for (name, f) in droppers().into_iter().filter(|d| ["itself", "only element", "only member"].contains(&d.0)) {
            c.scenario("drop", name, &sh.name, "complete", |d| {
                let v: Value = json::from_str(&sh.text(d, "complete")).unwrap();
                Box::new(move || {
                    f(v, Value::Null);
                    "ok"
                })
            });
        }
        // held without the value around it
        c.scenario("drop", "as an array or object", &sh.name, "complete", |d| {
            let v: Value = json::from_str(&sh.text(d, "complete")).unwrap();
            Box::new(move || {
                match v {
                    Value::Array(a) => drop(a),
                    Value::Object(o) => drop(o),
                    _ => {}
                }
                "ok"
            })
        });
        c.reads::<Value>("Value", sh, ("", ""), &["complete", "truncated-after", "mismatched"]);
        c.reads::<Ign>("ignored member", sh, ("{\"a\":1,\"zz\":", ",\"b\":2}"), &["complete", "truncated-after"]);
        c.writes::<Value>("Value", sh, ("", ""));
    }
    let most = c.depths.clone();
    let zeros = vec!["0"; 5_000].join(",");
    let wraps: Vec<(String, String)> = vec![("".into(), "".into()), (format!("[{},", zeros), "]".into()), ("[".into(), format!(",{}]", zeros))];
    for (sh, depths) in &crowded_shapes() {
        c.depths = if depths.is_empty() { most.clone() } else { depths.clone() };
        for (name, f) in droppers().into_iter().filter(|d| ["itself", "only element", "clear"].contains(&d.0)) {
            c.scenario("drop", name, &sh.name, "complete", |d| {
                let v: Value = json::from_str(&sh.text(d, "complete")).unwrap();
                Box::new(move || {
                    f(v, Value::Null);
                    "ok"
                })
            });
        }
        c.reads::<Value>("Value", sh, ("", ""), &["complete", "truncated-after"]);
        c.reads::<Ign>("ignored member", sh, ("{\"a\":1,\"zz\":", ",\"b\":2}"), &["complete"]);
        c.writes::<Value>("Value", sh, ("", ""));
    }
    // a crowd outermost only
    c.depths = most;
    for sh in &shapes {
        for (k, w) in wraps.iter().enumerate().skip(1) {
            c.scenario("drop", if k == 1 { "after 5000" } else { "before 5000" }, &sh.name, "complete", |d| {
                let v: Value = json::from_str(&format!("{}{}{}", w.0, sh.text(d, "complete"), w.1)).unwrap();
                Box::new(move || {
                    drop(v);
                    "ok"
                })
            });
            c.reads::<Value>(if k == 1 { "Value after 5000" } else { "Value before 5000" }, sh, (&w.0, &w.1), &["complete", "truncated-after"]);
            c.writes::<Value>(if k == 1 { "Value after 5000" } else { "Value before 5000" }, sh, (&w.0, &w.1));
        }
    }
    println!("records {}", o.n);
    o.done();
}
