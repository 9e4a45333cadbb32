//! Applies histories of operations to the untyped containers and records what
//! they do, on an allocator that checks its callers.
//!   store conf --out FILE --nodes N
//!   store random --seed S --n N --steps K --out FILE
//!   store big    --seed S --n N --steps K --out FILE
//!   store replay --hist FILE --out FILE
//! The operations are numbered as in Store.tla.
use mh::flat::value_term;
use mh::guard::{self, Guard};
use mh::rng::Rng;
use mh::run::{arg, init, num, Out, Runner};
use mh::term::{bytes, digits, i, parse, s, tag, Term};
use miniserde::json::{self, Array, Number, Object, Value};
use std::mem;

#[global_allocator]
static A: Guard = Guard;

const REGS: usize = 3;
const KEYS: &[&str] = &["", "a", "b", "ab", "é", "a\"", "zz"];
const FEW: &[i64] = &[0, 6, 8, 9];

fn arr(v: Vec<Value>) -> Value {
    Value::Array(v.into_iter().collect())
}
fn obj(v: Vec<(&str, Value)>) -> Value {
    Value::Object(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
/// The same items from an iterator that knows less about how many there are,
/// or says so in other ways: any bounds that are true are fair.
struct Vague<T> {
    rest: std::collections::VecDeque<T>,
    how: usize,
}
impl<T> Iterator for Vague<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.rest.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.rest.len();
        match self.how {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n / 2, Some(2 * n + 1)),
            4 => (n.min(1), None),
            5 => (n, None),
            6 => (n.min(1), Some(n)),
            7 => (n.saturating_sub(1), Some(n + 1)),
            _ => (n, Some(usize::MAX)),
        }
    }
}
fn vague<T, I: IntoIterator<Item = T>>(it: I) -> Vague<T> {
    thread_local!(static TURN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
    let how = TURN.with(|t| {
        t.set(t.get() + 1);
        t.get() / 3 % 9
    });
    Vague { rest: it.into_iter().collect(), how }
}
fn un(n: u64) -> Value {
    Value::Number(Number::U64(n))
}
/// The names beyond the listed ones: k and four digits.
fn name(b: usize) -> String {
    if b < KEYS.len() {
        KEYS[b].to_string()
    } else {
        format!("k{:04}", b)
    }
}
fn lit(a: usize) -> Value {
    match a {
        0 => Value::Null,
        1 => Value::Bool(true),
        2 => Value::Bool(false),
        3 => un(0),
        4 => un(u64::MAX),
        5 => Value::Number(Number::I64(-1)),
        6 => Value::String("x\"y\n".to_string()),
        7 => Value::String(String::new()),
        8 => Value::Array(Array::new()),
        9 => Value::Object(Object::new()),
        10 => arr(vec![Value::Null, Value::Bool(true)]),
        11 => obj(vec![("a", un(1)), ("b", arr(vec![un(2)]))]),
        12 => arr(vec![arr(vec![obj(vec![("a", arr(vec![]))])])]),
        13 => obj(vec![("", obj(vec![("", obj(vec![]))]))]),
        14 => arr(vec![un(1), un(2), un(3), un(4), un(5)]),
        15 => Value::Number(Number::I64(i64::MIN)),
        16 => Value::String("it's\u{e9}\t\r\0\u{1}\u{1f}\u{8}\u{c}\u{7f}\\/".to_string()),
        _ => Value::Number(Number::F64(FLOATS[a - 17].0)),
    }
}
const LITS: usize = 17 + FLOATS.len();
/// Floats, how they are shown, how they are written.
const FLOATS: &[(f64, &str, &str)] = &[
    (1.5, "1.5", "1.5"),
    (1.0, "1.0", "1.0"),
    (-0.0, "-0.0", "-0.0"),
    (1e21, "1e21", "1e21"),
    (2.5e-7, "2.5e-7", "2.5e-7"),
    (f64::NAN, "NaN", "null"),
    (f64::INFINITY, "inf", "null"),
    (f64::NEG_INFINITY, "-inf", "null"),
];
fn float_terms() -> Term {
    Term::L(FLOATS.iter().map(|(f, d, j)| Term::L(vec![mh::flt::f64_term(*f), bytes(d.as_bytes()), bytes(j.as_bytes())])).collect())
}
/// The same literals, for the specification.
fn lit_terms() -> Term {
    let t = |x: &str, v: Vec<Term>| tag(x, v);
    let u = |n| t("u", vec![digits(n)]);
    let a = |v: Vec<Term>| t("a", vec![Term::L(v)]);
    let o = |v: Vec<(&str, Term)>| t("o", vec![Term::L(v.into_iter().map(|(k, x)| Term::L(vec![bytes(k.as_bytes()), x])).collect())]);
    let null = || t("null", vec![]);
    Term::L([
        null(),
        t("b", vec![i(1)]),
        t("b", vec![i(0)]),
        u(0),
        u(u64::MAX),
        t("i", vec![i(1), digits(1)]),
        t("s", vec![bytes(b"x\"y\n")]),
        t("s", vec![bytes(b"")]),
        a(vec![]),
        o(vec![]),
        a(vec![null(), t("b", vec![i(1)])]),
        o(vec![("a", u(1)), ("b", a(vec![u(2)]))]),
        a(vec![a(vec![o(vec![("a", a(vec![]))])])]),
        o(vec![("", o(vec![("", o(vec![]))]))]),
        a(vec![u(1), u(2), u(3), u(4), u(5)]),
        t("i", vec![i(1), digits(1 << 63)]),
        t("s", vec![bytes("it's\u{e9}\t\r\0\u{1}\u{1f}\u{8}\u{c}\u{7f}\\/".as_bytes())]),
    ]
    .into_iter()
    .chain(FLOATS.iter().map(|f| mh::flt::f64_term(f.0)))
    .collect())
}

fn place<'a>(v: &'a mut Value, path: &[i64]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in path {
        v = match v {
            Value::Array(a) => a.get_mut(*k as usize)?,
            Value::Object(o) => o.values_mut().nth(*k as usize)?,
            _ => return None,
        };
    }
    Some(v)
}

/// Applies one operation; None if it does not apply, else what was observed.
fn apply(regs: &mut [Value; REGS], op: &[i64]) -> Option<Vec<u8>> {
    let (c, r, sr, a, b, path) = (op[0], op[1] as usize, op[2] as usize, op[3] as usize, op[4] as usize, &op[5..]);
    let key = || name(b);
    place(&mut regs[r], path)?;
    if [3, 5, 6, 7, 11, 19, 20, 41, 44, 45].contains(&c) {
        if r == sr {
            return None;
        }
        // register s apart from the others
        let mut x = mem::take(&mut regs[sr]);
        let done = (|| {
            let p = place(&mut regs[r], path).unwrap();
            match (c, p) {
                (3, p) => *p = mem::take(&mut x),
                (5, p) => p.clone_from(&x),
                (6, p) => match (p, &x) {
                    (Value::Array(p), Value::Array(x)) => p.clone_from(x),
                    (Value::Object(p), Value::Object(x)) => p.clone_from(x),
                    _ => return None,
                },
                (7, p) => mem::swap(p, &mut x),
                (11, Value::Array(p)) => p.push(mem::take(&mut x)),
                (19, Value::Array(p)) => match &mut x {
                    Value::Array(x) => p.append(x),
                    _ => return None,
                },
                (20, Value::Array(p)) => match &x {
                    Value::Array(x) => p.extend(x.iter().cloned()),
                    _ => return None,
                },
                (41, Value::Object(p)) => drop(p.insert(key(), mem::take(&mut x))),
                (44, Value::Object(p)) => match &mut x {
                    Value::Object(x) => p.append(x),
                    _ => return None,
                },
                (45, Value::Object(p)) => match &x {
                    Value::Object(x) => p.extend(x.iter().map(|(k, v)| (k.clone(), v.clone()))),
                    _ => return None,
                },
                _ => return None,
            }
            Some(vec![])
        })();
        regs[sr] = x;
        return done;
    }
    let p = place(&mut regs[r], path).unwrap();
    let mut see = vec![];
    let mut give: Option<Value> = None;
    match (c, p) {
        (1, p) => *p = lit(a),
        (2, p) => give = Some(mem::take(p)),
        (4, p) => give = Some(p.clone()),
        (8, p) => give = Some(mem::replace(p, lit(a))),
        (10, Value::Array(p)) => p.push(lit(a)),
        (12, Value::Array(p)) => give = Some(p.pop()?),
        (13, Value::Array(p)) => {
            if b > p.len() {
                return None;
            }
            p.insert(b, lit(a))
        }
        (14, Value::Array(p)) => {
            if b >= p.len() {
                return None;
            }
            give = Some(p.remove(b))
        }
        (15, Value::Array(p)) => {
            if b >= p.len() {
                return None;
            }
            give = Some(p.swap_remove(b))
        }
        (16, Value::Array(p)) => p.truncate(b),
        (17, Value::Array(p)) => p.clear(),
        (18, Value::Array(p)) => p.reverse(),
        (21, Value::Array(p)) => {
            if b > p.len() {
                return None;
            }
            give = Some(arr(p.split_off(b)))
        }
        (22, Value::Array(p)) => {
            if a > b || b > p.len() {
                return None;
            }
            give = Some(Value::Array(vague(p.drain(a..b)).collect()))
        }
        (23, Value::Array(p)) => {
            let mut k = 0;
            p.retain(|_| {
                k += 1;
                k % 2 == 1
            })
        }
        (24, Value::Array(p)) => {
            let q = mem::take(p);
            *p = vague(q.into_iter().rev()).collect();
        }
        (25, Value::Array(p)) => give = Some(Value::Array(vague(mem::take(p).into_iter().take(b)).collect())),
        (26, Value::Array(p)) => {
            for x in &mut *p {
                if let Value::Null = x {
                    *x = Value::Bool(true)
                }
            }
        }
        (27, Value::Array(p)) => give = Some(arr(vec![Value::Array(p.clone()), Value::Array(vague((&*p).into_iter().cloned()).collect())])),
        (28, Value::Array(p)) => {
            if a >= p.len() || b >= p.len() {
                return None;
            }
            p.swap(a, b)
        }
        (29, Value::Array(p)) => {
            if b > p.len() {
                return None;
            }
            p.rotate_left(b)
        }
        (30, Value::Array(p)) => p.resize(b, lit(a)),
        (31, Value::Array(p)) => {
            // each a way to see how much there is
            let n = p.len();
            if p.iter().count() != n || (&*p).into_iter().count() != n || p.iter_mut().count() != n || p.as_slice().len() != n || p.get(n).is_some() || p.first().is_some() == p.is_empty() {
                return Some(vec![99]);
            }
            see = vec![(n % 256) as u8, (n / 256) as u8, p.is_empty() as u8];
        }
        (32, Value::Array(p)) => {
            let mut it = mem::take(p).into_iter();
            let last = it.next_back();
            give = Some(last.unwrap_or_default());
            drop(it);
        }
        (33, Value::Array(p)) => {
            let mut it = mem::take(p).into_iter();
            it.next_back();
            it.next();
            give = Some(Value::Array(Array::from_iter(vague(it))));
        }
        (34, Value::Array(p)) => {
            if b > p.len() {
                return None;
            }
            let mut it = mem::take(p).into_iter();
            let front: Array = it.by_ref().take(b).collect();
            p.extend(vague(it));
            give = Some(Value::Array(front));
        }
        (35, Value::Array(p)) => p.extend(vague((0..b).map(|k| un(k as u64)))),
        (36, Value::Array(p)) => {
            if b > p.len() {
                return None;
            }
            p.splice(b..b, (0..a).map(|_| Value::Null));
        }
        (37, Value::Array(p)) => {
            p.shrink_to_fit();
            p.reserve(b);
        }
        (57, Value::Array(p)) => give = Some(Value::Object(vague(mem::take(p).into_iter().enumerate().map(|(k, v)| (KEYS[k % 3].to_string(), v))).collect())),
        (40, Value::Object(p)) => give = Some(p.insert(key(), lit(a)).unwrap_or_default()),
        (42, Value::Object(p)) => give = Some(p.remove(&name(b))?),
        (43, Value::Object(p)) => p.clear(),
        (46, Value::Object(p)) => give = Some(Value::Object(vague(p.split_off(&name(b))).collect())),
        (47, Value::Object(p)) => p.retain(|k, _| k.len() % 2 == 0),
        (48, Value::Object(p)) => {
            let q = mem::take(p);
            *p = vague(q.into_iter().rev()).collect();
        }
        (49, Value::Object(p)) => give = Some(Value::Object(vague(mem::take(p).into_iter().take(b)).collect())),
        (50, Value::Object(p)) => {
            for (_, x) in &mut *p {
                *x = lit(a)
            }
        }
        (51, Value::Object(p)) => drop(p.entry(key()).or_insert_with(|| lit(a))),
        (52, Value::Object(p)) => give = Some(p.pop_first()?.1),
        (53, Value::Object(p)) => give = Some(p.pop_last()?.1),
        (54, Value::Object(p)) => *p.get_mut(&name(b))? = lit(a),
        (55, Value::Object(p)) => give = Some(arr(mem::take(p).into_iter().map(|x| x.1).collect())),
        (56, Value::Object(p)) => {
            let by_ref: Vec<Value> = (&*p).into_iter().map(|(k, _)| Value::String(k.clone())).collect();
            if by_ref.len() != p.len() || p.keys().count() != p.len() || p.is_empty() != by_ref.is_empty() || (&*p).into_iter().any(|(k, _)| !p.contains_key(k)) {
                return Some(vec![99]);
            }
            give = Some(arr(by_ref))
        }
        (58, Value::Object(p)) => p.extend(vague((0..b).map(|k| (name(k + 10), un(k as u64))))),
        (59, Value::Object(p)) => {
            // the other way round, each on its own
            for k in (0..b).rev() {
                p.insert(name(k + 10), un(k as u64));
            }
        }
        (60, p) => {
            let t = json::to_string(p);
            *p = json::from_str(&t).ok()?;
        }
        (61, p) => see = format!("{:?}", p).into_bytes(),
        (62, p) => see = format!("{:#?}", p).into_bytes(),
        (63, p) => see = json::to_string(p).into_bytes(),
        (65, p) => {
            let q = mem::replace(p, Value::Null);
            drop(q);
        }
        (66, p) => {
            let q = p.clone();
            *p = Value::Null;
            give = Some(q);
        }
        (67, p) => match p {
            Value::Array(p) => *p = Array::default(),
            Value::Object(p) => *p = Object::default(),
            p => *p = Value::default(),
        },
        (68, p) => {
            let q = mem::take(p);
            *p = arr(vec![q]);
        }
        (69, p) => {
            let q = mem::take(p);
            *p = obj(vec![(&name(b)[..], q)]);
        }
        _ => return None,
    }
    if let Some(v) = give {
        regs[sr] = v;
    }
    Some(see)
}

/// One history from three nulls; the operations are taken from `next`.
fn history(run: &Runner, look: usize, mut next: impl FnMut(&[Value; REGS], usize) -> Option<Vec<i64>>) -> Term {
    let base = guard::live();
    let mut steps = vec![];
    let mut said = String::new();
    let mut regs: [Value; REGS] = Default::default();
    let mut outcome = "ok";
    loop {
        let Some(op) = next(&regs, steps.len()) else { break };
        said.push_str(&format!("{:?}", op));
        guard::counting(true);
        let got = run.case(said.as_bytes(), || apply(&mut regs, &op));
        guard::counting(false);
        let got = match got {
            None => {
                outcome = "panic";
                break;
            }
            Some(g) => g,
        };
        let (r, sr) = (op[1] as usize, op[2] as usize);
        if steps.len() < look {
            steps.push(Term::L(vec![Term::L(op.iter().map(|x| i(*x)).collect())]));
            continue;
        }
        let app = got.is_some();
        let see = got.unwrap_or_default();
        let seen = bytes(&see);
        drop(see);
        steps.push(Term::L(vec![Term::L(op.iter().map(|x| i(*x)).collect()), i(app as i64), value_term(&regs[r]), value_term(&regs[sr]), seen]));
    }
    let last = Term::L(regs.iter().map(value_term).collect());
    if run.case(format!("drop {}", said).as_bytes(), move || drop(regs)).is_none() {
        outcome = "panic";
    }
    let now = guard::live();
    Term::L(vec![Term::L(steps), last, i(now.0 - base.0), i(now.1 - base.1), s(outcome)])
}

/// Paths to all nodes, with their kind: 'a', 'o' or 's'.
fn nodes(v: &Value, at: &mut Vec<i64>, out: &mut Vec<(Vec<i64>, char)>) {
    if out.len() > 200 {
        return;
    }
    match v {
        Value::Array(a) => {
            out.push((at.clone(), 'a'));
            for (k, x) in a.iter().enumerate() {
                at.push(k as i64);
                nodes(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            out.push((at.clone(), 'o'));
            for (k, x) in o.values().enumerate() {
                at.push(k as i64);
                nodes(x, at, out);
                at.pop();
            }
        }
        _ => out.push((at.clone(), 's')),
    }
}
fn size(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(size).sum(),
        Value::Object(o) => o.values().map(size).sum(),
        _ => 0,
    }
}
fn random_op(r: &mut Rng, regs: &[Value; REGS], huge: bool) -> Vec<i64> {
    loop {
        let reg = r.below(REGS);
        let mut all = vec![];
        nodes(&regs[reg], &mut vec![], &mut all);
        let big = all.len() > if huge { 150 } else { 60 };
        let (path, kind) = if r.chance(1, 3) { all[0].clone() } else { r.pick(&all).clone() };
        let c = match (kind, r.below(10)) {
            ('s', 0..=6) => *r.pick(&[1, 3, 5, 7, 8, 68, 69, 1, 8]),
            ('a', 0..=6) => *r.pick(&[10, 10, 11, 11, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 57, 6, 6]),
            ('o', 0..=6) => *r.pick(&[40, 40, 41, 41, 42, 43, 44, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 58, 59, 6, 6]),
            _ => *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 60, 61, 62, 63, 65, 66, 67, 68, 69]),
        };
        let total: usize = regs.iter().map(size).sum();
        if huge && total > 1200 && [20, 27, 45, 44].contains(&c) {
            continue;
        }
        if big && !(huge && total < 3000 && [4, 5, 6, 66, 68, 69].contains(&c)) && [4, 20, 27, 45, 66, 5, 6, 68, 69].contains(&c) {
            continue;
        }
        if path.len() > 12 && [68, 69].contains(&c) {
            continue;
        }
        let b = if (40..57).contains(&c) && ![49].contains(&c) || c == 69 { r.below(KEYS.len()) } else { r.below(6) };
        let a = if c == 22 || c == 28 { r.below(4) } else { r.below(LITS) };
        let b = if huge && r.chance(1, 2) {
            let n = match place(&mut regs[reg].clone(), &path) {
                Some(Value::Array(p)) => p.len(),
                Some(Value::Object(p)) => p.len() + 10,
                _ => 6,
            };
            match r.below(4) {
                0 => n.saturating_sub(r.below(3)),
                1 => n / 2,
                _ => r.below(n + 1),
            }
        } else {
            b
        };
        let b = if [35, 36, 37, 58, 59, 57].contains(&c) { b % 20 } else { b };
        let a = if c == 22 { a.min(b) } else { a };
        let mut op = vec![c, reg as i64, r.below(REGS) as i64, a as i64, b as i64];
        op.extend(path);
        return op;
    }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap();
    let outp = arg("out").unwrap();
    if mode == "conf" {
        let mut t = String::from("{\"lits\":");
        lit_terms().write(&mut t);
        t.push_str(",\"floats\":");
        float_terms().write(&mut t);
        t.push_str(",\"keys\":");
        Term::L(KEYS.iter().map(|k| bytes(k.as_bytes())).collect()).write(&mut t);
        t.push_str(&format!(",\"regs\":{},\"nodes\":{},\"few\":{:?}}}\n", REGS, num("nodes", 4), FEW));
        std::fs::write(&outp, t).unwrap();
        return;
    }
    init(&outp, 30);
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let mut ops = 0;
    if mode == "replay" {
        for l in std::fs::read_to_string(arg("hist").unwrap()).unwrap().lines() {
            let h: Vec<i64> = parse(l).list().iter().map(|x| x.int()).collect();
            let mut p = 0;
            // the steps before the last are the last ones of other histories
            let mut total = 0;
            while p < h.len() {
                p += h[p] as usize + 1;
                total += 1;
            }
            p = 0;
            o.put(&history(&run, total - 1, |_, _| {
                if p >= h.len() {
                    return None;
                }
                let n = h[p] as usize;
                let op = h[p + 1..p + 1 + n].to_vec();
                p += n + 1;
                ops += 1;
                Some(op)
            }));
        }
    } else if mode == "big" {
        let mut r = Rng::new(num("seed", 1) ^ 0xb165);
        let steps = num("steps", 25) as usize;
        for k in 0..num("n", 100) as usize {
            let n = r.range(8, steps);
            let mut q = r.clone();
            r.next();
            let sizes: &[i64] = if k % 6 == 0 { &[520, 1030] } else { &[65, 101, 129, 150, 201, 257, 300] };
            let mut script: Vec<Vec<i64>> = vec![];
            let w = *q.pick(sizes);
            // a wide array, a wide object, or both, before anything else
            if k % 3 != 1 {
                script.push(vec![1, 0, 0, 8, 0]);
                script.push(if k % 2 == 0 { vec![35, 0, 0, 0, w] } else { vec![30, 0, 0, q.below(LITS) as i64, w] });
            }
            if k % 3 != 0 {
                script.push(vec![1, 1, 1, 9, 0]);
                script.push(vec![if k % 2 == 0 { 58 } else { 59 }, 1, 1, 0, w.min(300)]);
            }
            for c in [61, 62, 63, 31, 56, 60] {
                for reg in 0..2 {
                    if q.chance(2, 3) {
                        script.push(vec![c, reg, 2, 0, 0]);
                    }
                }
            }
            o.put(&history(&run, script.len() / 4, |regs, k| {
                if k >= n + script.len() {
                    return None;
                }
                ops += 1;
                Some(if k < script.len() { script[k].clone() } else { random_op(&mut q, regs, true) })
            }));
        }
    } else {
        let mut r = Rng::new(num("seed", 1) ^ 0x5703);
        let steps = num("steps", 25) as usize;
        for _ in 0..num("n", 100) {
            let n = r.range(3, steps);
            let mut q = r.clone();
            r.next();
            o.put(&history(&run, 0, |regs, k| {
                if k >= n {
                    return None;
                }
                ops += 1;
                Some(random_op(&mut q, regs, false))
            }));
        }
    }
    println!("histories {} operations {} blocks counted {}", o.n, ops, guard::total());
    o.done();
}
