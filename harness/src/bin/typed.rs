//! Reads and writes values of Rust types and records what happened.
//!   typed read  --group P --seed S --n N --out FILE --conf FILE
//!   typed write --group P ...
//!   typed round --group P ...
//!   typed words --type NAME --tokens FILE --len L --out FILE --conf FILE
#![allow(dead_code, deprecated, non_snake_case, non_camel_case_types, uncommon_codepoints, confusable_idents, mixed_script_confusables, unused_variables)]
use mh::docs::Docs;
use mh::model::*;
use mh::rng::Rng;
use mh::run::{arg, init, num, Out, Runner};
use mh::term::{bytes, i, parse, s, tag, Term};
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;
#[cfg(feature = "std")]
use std::collections::HashMap;

/// A hasher with many collisions.
#[derive(Default, Clone)]
pub struct Weak(u64);
impl std::hash::Hasher for Weak {
    fn finish(&self) -> u64 {
        self.0 & 3
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_add(*x as u64);
        }
    }
}
impl std::hash::BuildHasher for Weak {
    type Hasher = Weak;
    fn build_hasher(&self) -> Weak {
        Weak(0)
    }
}

pub struct Entry {
    groups: &'static str,
    name: &'static str,
    desc: fn() -> Term,
    read: Option<fn(&str) -> Option<Term>>,
    write: Option<fn(&mut Rng, usize) -> (Term, Box<dyn FnOnce() -> String>)>,
    round: Option<fn(&mut Rng, usize, &Runner) -> Term>,
}
fn read<T: Model + Deserialize>(t: &str) -> Option<Term> {
    json::from_str::<T>(t).ok().map(|v| flat(&v, How::Read))
}
fn write<T: Model + Serialize + 'static>(r: &mut Rng, size: usize) -> (Term, Box<dyn FnOnce() -> String>) {
    let v = T::arb(r, size);
    (flat(&v, How::Write), Box::new(move || json::to_string(&v)))
}
fn round<T: Model + Serialize + Deserialize>(r: &mut Rng, size: usize, run: &Runner) -> Term {
    let v = T::arb(r, size);
    let before = flat(&v, How::Read);
    let Some(text) = run.case(b"to_string", || json::to_string(&v)) else {
        return Term::L(vec![before, s("panic"), Term::L(vec![]), Term::L(vec![]), Term::L(vec![])]);
    };
    match run.case(text.as_bytes(), || json::from_str::<T>(&text)) {
        None => Term::L(vec![before, s("panic"), Term::L(vec![]), bytes(text.as_bytes()), Term::L(vec![])]),
        Some(Err(_)) => Term::L(vec![before, s("err"), Term::L(vec![]), bytes(text.as_bytes()), Term::L(vec![])]),
        Some(Ok(w)) => {
            let again = run.case(b"to_string", || json::to_string(&w));
            Term::L(vec![before, s("ok"), flat(&w, How::Read), bytes(text.as_bytes()), again.map_or(Term::L(vec![]), |t| bytes(t.as_bytes()))])
        }
    }
}
impl Entry {
    fn rw<T: Model + Serialize + Deserialize + 'static>(groups: &'static str, name: &'static str) -> Entry {
        Entry { groups, name, desc: T::desc, read: Some(read::<T>), write: Some(write::<T>), round: Some(round::<T>) }
    }
    fn wo<T: Model + Serialize + 'static>(groups: &'static str, name: &'static str) -> Entry {
        Entry { groups, name, desc: T::desc, read: None, write: Some(write::<T>), round: None }
    }
    #[allow(unused)]
    fn ro<T: Model + Deserialize>(groups: &'static str, name: &'static str) -> Entry {
        Entry { groups, name, desc: T::desc, read: Some(read::<T>), write: None, round: None }
    }
}

include!(env!("MH_TYPES"));

fn write_conf(path: &str, entries: &[Entry], extra: Vec<(&str, Term)>) {
    let descs: Vec<Term> = entries.iter().map(|e| (e.desc)()).collect();
    let env = env_terms();
    let names: Vec<Term> = entries.iter().map(|e| s(e.name)).collect();
    let mut o = String::from("{\"types\":");
    Term::L(descs).write(&mut o);
    o.push_str(",\"env\":");
    Term::L(env).write(&mut o);
    o.push_str(",\"names\":");
    Term::L(names).write(&mut o);
    for (k, t) in extra {
        o.push_str(&format!(",\"{}\":", k));
        t.write(&mut o);
    }
    o.push_str("}\n");
    std::fs::write(path, o).unwrap();
}

fn one_read(run: &Runner, k: usize, e: &Entry, text: &str) -> Term {
    let (st, f) = match run.case(format!("{}\n{}", e.name, text).as_bytes(), || (e.read.unwrap())(text)) {
        None => ("panic", Term::L(vec![])),
        Some(None) => ("err", Term::L(vec![])),
        Some(Some(f)) => ("ok", f),
    };
    Term::L(vec![i(k as i64 + 1), bytes(text.as_bytes()), s(st), f])
}

fn words(entries: Vec<Entry>) {
    let names: Vec<String> = arg("types").unwrap().split('|').map(|x| x.trim().to_string()).collect();
    let mut entries = entries;
    let chosen: Vec<Entry> = names
        .iter()
        .map(|n| {
            let k = entries.iter().position(|e| e.name == n && e.read.is_some()).unwrap_or_else(|| panic!("no type {}", n));
            entries.swap_remove(k)
        })
        .collect();
    let tok: Vec<Vec<u8>> = parse(&std::fs::read_to_string(arg("tokens").unwrap()).unwrap()).list().iter().map(|t| t.as_bytes()).collect();
    let (len, outp) = (num("len", 4) as usize, arg("out").unwrap());
    let nt = tok.len();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::atomic::AtomicU64::new(0);
    let hits = std::sync::Mutex::new(vec![]);
    let reads: Vec<fn(&str) -> Option<Term>> = chosen.iter().map(|e| e.read.unwrap()).collect();
    std::thread::scope(|sc| {
        for slot in 0..8 {
            let (tok, next, total, hits, outp, reads) = (&tok, &next, &total, &hits, &outp, &reads);
            sc.spawn(move || {
                let run = Runner::new(outp, slot);
                let (mut mine, mut count) = (vec![], 0);
                loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= nt * nt {
                        break;
                    }
                    let mut starts = vec![vec![k / nt, k % nt]];
                    if k == 0 {
                        starts.push(vec![]);
                    }
                    if k % nt == 0 {
                        starts.push(vec![k / nt]);
                    }
                    for w in starts {
                        let mut w: Vec<usize> = w;
                        let root = w.len();
                        let deep = root == 2;
                        let mut text: Vec<u8> = w.iter().flat_map(|t| tok[*t].clone()).collect();
                        run.case(&text.clone(), || loop {
                            if let Ok(x) = std::str::from_utf8(&text) {
                                for (ti, rd) in reads.iter().enumerate() {
                                    count += 1;
                                    match std::panic::catch_unwind(|| rd(x)) {
                                        Ok(None) => {}
                                        Ok(Some(f)) => mine.push((ti, w.clone(), "ok", f)),
                                        Err(_) => mine.push((ti, w.clone(), "panic", Term::L(vec![]))),
                                    }
                                }
                            }
                            if !deep {
                                return;
                            }
                            if w.len() < len {
                                w.push(0);
                                text.extend_from_slice(&tok[0]);
                                continue;
                            }
                            loop {
                                if w.len() <= root {
                                    return;
                                }
                                let t = w.pop().unwrap();
                                text.truncate(text.len() - tok[t].len());
                                if t + 1 < nt {
                                    w.push(t + 1);
                                    text.extend_from_slice(&tok[t + 1]);
                                    break;
                                }
                            }
                        });
                    }
                }
                hits.lock().unwrap().extend(mine);
                total.fetch_add(count, std::sync::atomic::Ordering::Relaxed);
            });
        }
    });
    let mut v = hits.into_inner().unwrap();
    v.sort_by(|a, b| (&a.1, a.0).cmp(&(&b.1, b.0)));
    let mut o = Out::new(&outp);
    for (ti, w, st, f) in &v {
        let t: Vec<u8> = w.iter().flat_map(|t| tok[*t].clone()).collect();
        o.put(&Term::L(vec![i(*ti as i64 + 1), bytes(&t), s(st), f.clone(), Term::L(w.iter().map(|t| i(*t as i64 + 1)).collect())]));
    }
    println!("words {} accepted {}", total.into_inner(), v.len());
    let tokens = Term::L(tok.iter().map(|t| bytes(t)).collect());
    write_conf(&arg("conf").unwrap(), &chosen, vec![("tokens", tokens), ("len", i(len as i64))]);
    o.done();
}

/// Numbers of every kind, at every power of two and ten.
fn numbers() -> Vec<Number> {
    let mut v = vec![];
    let mut ints: Vec<i128> = vec![0];
    for k in 0..64 {
        ints.extend([(1i128 << k) - 1, 1i128 << k, (1i128 << k) + 1]);
    }
    let mut p = 1i128;
    while p < 1i128 << 64 {
        ints.extend([p - 1, p, p + 1]);
        p *= 10;
    }
    for x in ints {
        for x in [x, -x] {
            v.push(Number::I64(x as i64));
            v.push(Number::U64(x as u64));
        }
    }
    for x in [0.0, -0.0, 1.0, 1e16, 1e-7, f64::MAX, f64::MIN_POSITIVE, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        v.push(Number::F64(x));
    }
    v
}

/// Values every run writes.
fn fixed(name: &str) -> Vec<(Term, Box<dyn FnOnce() -> String>)> {
    fn of<T: Model + Serialize + 'static>(v: Vec<T>) -> Vec<(Term, Box<dyn FnOnce() -> String>)> {
        v.into_iter().map(|x| (flat(&x, How::Write), Box::new(move || json::to_string(&x)) as Box<dyn FnOnce() -> String>)).collect()
    }
    macro_rules! ints {
        ($t:ident) => {{
            let mut v: Vec<$t> = vec![$t::MIN, $t::MAX, 0, 1, $t::MIN + 1, $t::MAX - 1];
            let mut p: $t = 1;
            while let Some(q) = p.checked_mul(10) {
                p = q;
                v.extend([p, p - 1, p + 1]);
                v.extend([(0 as $t).wrapping_sub(p), (0 as $t).wrapping_sub(p) + 1]);
            }
            let mut p: $t = 1;
            while let Some(q) = p.checked_mul(2) {
                p = q;
                v.extend([p, p - 1, p.wrapping_add(1), (0 as $t).wrapping_sub(p)]);
            }
            if $t::BITS == 8 {
                v = (0..=255u8).map(|x| x as $t).collect();
            }
            v
        }};
    }
    match name {
        "i8" => of(ints!(i8)),
        "i16" => of(ints!(i16)),
        "i32" => of(ints!(i32)),
        "i64" => of(ints!(i64)),
        "isize" => of(ints!(isize)),
        "u8" => of(ints!(u8)),
        "u16" => of(ints!(u16)),
        "u32" => of(ints!(u32)),
        "u64" => of(ints!(u64)),
        "usize" => of(ints!(usize)),
        "Number" => of(numbers()),
        "f64" => {
            let mut v = vec![0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 5e-324, -5e-324];
            for e in 0..2046u64 {
                v.push(f64::from_bits(e << 52));
                v.push(-f64::from_bits(e << 52 | (0xfffffffffffff - e)));
            }
            for k in -30..=30 {
                v.push(10f64.powi(k));
                v.push(-12345.6789 * 10f64.powi(k));
            }
            of(v)
        }
        "f32" => {
            let mut v = vec![0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e-45];
            for e in 0..255u32 {
                v.push(f32::from_bits(e << 23));
                v.push(-f32::from_bits(e << 23 | (0x7fffff - e)));
            }
            of(v)
        }
        "String" => {
            let mut v: Vec<String> = vec![];
            for b in 0..=0x100u32 {
                let c = char::from_u32(b).unwrap();
                v.push(c.to_string());
                v.push(format!("a{}b", c));
                v.push(format!("{}{}", c, c));
            }
            let all: Vec<char> = (0..0x110000).step_by(7).chain(0xff00..0x10100).filter_map(char::from_u32).collect();
            for c in all.chunks(300) {
                v.push(c.iter().collect());
            }
            let sp = ["\"", "\\", "\n", "\u{1}", "\u{1f}", "\u{7f}", "/", "u", "é", "😀", "a", ""];
            for a in sp {
                for b in sp {
                    for c in sp {
                        v.push(format!("{}{}{}", a, b, c));
                    }
                }
            }
            for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096] {
                for c in ["\n", "\"", "\u{0}", "é", "x", "\\", "\u{1f}", "\u{7f}", "/"] {
                    v.push(format!("{}{}", "y".repeat(n - 1), c));
                    v.push(format!("{}{}", c, "y".repeat(n - 1)));
                    v.push(format!("{}{}{}", "y".repeat(n / 2), c, "z".repeat(n - n / 2)));
                }
            }
            v.extend(mh::texts::placed());
            of(v)
        }
        "BTreeMap<String, u8>" => of(mh::texts::placed().into_iter().step_by(3).map(|k| [(k, 1)].into_iter().collect()).collect::<Vec<BTreeMap<String, u8>>>()),
        // wide and deep
        "Vec<()>" => of(vec![vec![(); 66_000], vec![(); 257]]),
        "Vec<bool>" => of(vec![(0..70_000).map(|k| k % 3 == 0).collect::<Vec<bool>>()]),
        "BTreeMap<i32, u8>" => of(vec![(0..66_000).map(|k| (k, 7)).collect::<BTreeMap<i32, u8>>()]),
        #[cfg(feature = "std")]
        "HashMap<i32, bool>" => of(vec![(0..66_000).map(|k| (k, true)).collect::<HashMap<i32, bool>>()]),
        "Object" => of(vec![(0..66_000).map(|k| (k.to_string(), Value::Null)).collect::<Object>()]),
        "Array" => of(vec![(0..66_000).map(|k| Value::Bool(k % 2 == 0)).collect::<Array>()]),
        "Value" => {
            let mut v = vec![Value::Array((0..66_000).map(|_| Value::Null).collect())];
            for (style, depth) in [(0, 6000), (1, 5000), (2, 4000), (3, 1030), (0, 300), (1, 300)] {
                let mut x = Value::Bool(true);
                for k in 0..depth {
                    x = if style == 0 || (style == 2 && k % 2 == 0) {
                        Value::Array(vec![x].into_iter().collect())
                    } else if style == 3 {
                        Value::Array(vec![Value::Object(Object::new()), x, Value::Array(Array::new())].into_iter().collect())
                    } else {
                        Value::Object(vec![("k".to_string(), x)].into_iter().collect())
                    };
                }
                v.push(x);
            }
            of(v)
        }
        _ => vec![],
    }
}

/// Texts every run reads.
fn fixed_text(name: &str) -> Vec<String> {
    let rep = |e: &str, n: usize| format!("[{}]", vec![e; n].join(","));
    let members = |n: usize, f: &dyn Fn(usize) -> String| format!("{{{}}}", (0..n).map(|k| format!("\"{}\":1", f(k))).collect::<Vec<_>>().join(","));
    match name {
        "Vec<()>" => vec![rep("null", 66_000), rep("null", 256)],
        "Vec<u8>" => vec![rep("1", 33_000), rep("255", 257)],
        "[u8; 0]" | "[u8; 1]" | "[u8; 2]" | "(u8, u8)" | "[u16; 256]" | "[u16; 257]" | "[u8; 64]" => [254, 255, 256, 257, 258, 259, 65, 64, 66].map(|n| rep("1", n)).into(),
        "BTreeMap<i32, u8>" => vec![members(5_000, &|k| k.to_string()), members(300, &|k| (k * 7919 % 263).to_string())],
        "HashMap<i32, u8>" | "HashMap<u64, u8>" => vec![members(5_000, &|k| k.to_string()), members(300, &|k| (k * 7919 % 263).to_string())],
        "BTreeMap<String, u8>" | "HashMap<String, u8>" | "HashMap<String, u8, Weak>" => vec![members(600, &|k| (k * 7919 % 523).to_string())],
        "UnknownOnly" | "Ig" | "Empty" | "Pair" => {
            let mut v = vec![];
            for c in [
                "null", "true", "false", "0", "-0", "-1", "1e5", "-1.5e-3", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "1e308", "1e309", "-1e309", "123456789012345678901234567890", "\"\"", "\"\\u0041\\n\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\ude00\"",
                "\"\\ud83d\\u0041\"", "\"\\x\"", "\"\t\"", "\"\u{7f}é😀\"", "[]", "{}", "[[],[[]]]", "{\"a\":{\"a\":{}}}", "[1,]", "[,1]", "{,}", "{\"a\":}", "{\"a\"}", "{\"a\":1,}", "{1:2}", "{\"a\":1 \"b\":2}", "[1 2]", "nul", "truefalse", "01", "-", "1.", ".5", "1e", "+1", "NaN", "Infinity", "'a'", "[", "]", "{", "}", "", " ", "[}", "{]", "[[1}", "\"",
                "\"\\", "\"\\u12\"", "//", "/**/1", "1/**/", "[\"a\":1]", "{[]:1}", "{\"\\q\":1}", "{\"a\":1,\"a\":[2]}", "\u{feff}1", "\u{a0}1",
            ] {
                for t in [format!("{{\"a\":1,\"?\":{},\"s\":\"x\"}}", c), format!("{{\"?\":{}}}", c), format!("{{\"?\":[{}],\"a\":2,\"s\":\"\"}}", c), format!("{{\"s\":\"\",\"a\":3,\"?\":{{\"a\":{}}} , \"zz\" : 4}}", c), format!("{{\"s\":\"\",\"a\":3,\"n\":{{\"v\":1,\"next\":null,\"?\":{}}}}}", c)] {
                    v.push(t);
                }
            }
            v
        }
        _ => vec![],
    }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap();
    let outp = arg("out").unwrap();
    init(&outp, 30);
    let group = arg("group").unwrap_or_default();
    let entries: Vec<Entry> = registry().into_iter().filter(|e| group.is_empty() || (group == "all" && !e.groups.starts_with('W')) || e.groups.split(' ').any(|g| group.split(',').any(|h| g == h))).collect();
    if mode == "words" {
        return words(entries);
    }
    let entries: Vec<Entry> = entries
        .into_iter()
        .filter(|e| match mode.as_str() {
            "read" | "wide" => e.read.is_some(),
            "skip" => ["UnknownOnly", "Ig", "Empty", "Pair"].contains(&e.name),
            "write" => e.write.is_some(),
            _ => e.round.is_some(),
        })
        .collect();
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let mut r = Rng::new(num("seed", 1) ^ 0x717e);
    let n = num("n", 100) as usize;
    let cap = num("bytes", 3_000_000) as usize / entries.len().max(1);
    let heavy = arg("heavy").is_some();
    let descs: Vec<Term> = entries.iter().map(|e| (e.desc)()).collect();
    let env = env_terms();
    for (k, e) in entries.iter().enumerate() {
        let mut size = 0;
        if mode == "read" {
            let mut seen = std::collections::HashSet::new();
            for t in ["null", "true", "false", "0", "1", "-1", "-0", "2.5", "-0.0", "1e3", "255", "256", "127", "128", "-128", "-129", "65536", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "\"\"", "\"a\"", "\"1\"", "\"null\"", "\"true\"", "[]", "{}", "[null]", "[1]", "[1,2]", "[1,2,3]", "[[]]", "[{}]", "{\"a\":1}", "{\"1\":1}", "[[1]]", "[true,false]", "[\"a\",\"b\"]", "{\"a\":{}}", "[1,true]", "{\"a\":null}", "[null,null]", "", "nul", "[", "{\"a\":", "[1,", "1 1"] {
                if seen.insert(t.to_string()) {
                    o.put(&one_read(&run, k, e, t));
                }
            }
            for t in fixed_text(e.name) {
                o.put(&one_read(&run, k, e, &t));
            }
            for (j, n) in [6usize, 17, 40, 70, 140, 300].into_iter().enumerate() {
                for style in 0..8 {
                    if n > 40 && (j + style + k) % 3 != 0 && n < 300 {
                        continue;
                    }
                    let d = Docs { env: &env, bad: 0, heavy: false };
                    if let Some(t) = d.shuffled(&descs[k], &mut r, n, style) {
                        if t.len() < 60_000 && (n < 300 || style % 2 == k % 2) {
                            o.put(&one_read(&run, k, e, &t));
                        }
                    }
                }
            }
            if ["P10", "P11", "P26"].iter().any(|g| e.groups.contains(g) && group.contains(g)) {
                for t in (Docs { env: &env, bad: 0, heavy: false }).near(&descs[k], &mut r) {
                    o.put(&one_read(&run, k, e, &t));
                }
            }
            let mut m = 0;
            while m < n && size < cap {
                let d = Docs { env: &env, bad: *r.pick(&[0, 0, 12, 6, 4]), heavy };
                let mut t = String::new();
                d.ws(&mut r, &mut t);
                let depth = r.range(1, 4);
                d.gen(&descs[k], &mut r, &mut t, depth);
                d.ws(&mut r, &mut t);
                if r.chance(1, 25) {
                    t = mh::gen::mutate(&mut r, &t);
                }
                m += 1;
                if t.len() < 20_000 && seen.insert(t.clone()) {
                    size += t.len();
                    o.put(&one_read(&run, k, e, &t));
                }
            }
        } else if mode == "wide" {
            let d = Docs { env: &env, bad: 0, heavy: false };
            let most = num("most", 66_000) as usize;
            let mut texts: Vec<(String, i64)> = vec![];
            for n in [100usize, 300, 5_000, 66_000, 131_100] {
                if n > most {
                    break;
                }
                for style in 0..if n < 60_000 { 8 } else { 2 } {
                    let over = [0, 0, 1, -1, 0, 0, 0, 2][style];
                    let arr = !e.name.starts_with('[') && !e.name.contains("[u");
                    if n > 300 && !arr || style > 3 && e.name.contains("; 655") {
                        break;
                    }
                    let at = match style {
                        1 => n - 1,
                        4 => r.below(n),
                        5 => n - 1,
                        _ => usize::MAX,
                    };
                    let bad = ["\"?\"", "null", "[[]]", "-1.5", "18446744073709551616", "{\"?\":{}}"][r.below(6)];
                    let put = |k: usize, x: &mut String| {
                        if k == at {
                            *x = bad.to_string();
                        }
                    };
                    let mut o = String::new();
                    if let Some(q) = d.wide(&descs[k], &mut r, &mut o, n, over, &put) {
                        if style == 6 {
                            let end = o.rfind(|c| c == ']' || c == '}').unwrap();
                            o.insert(end, ',');
                        }
                        if n > 10_000 && o.len() > 9 * n {
                            break;
                        }
                        texts.push((o, q));
                    }
                }
                for style in 0..5 {
                    if n < 60_000 || style == n / 60_000 {
                        texts.extend(d.crowd(&descs[k], &mut r, n, style).map(|t| (t, 0)));
                    }
                }
            }
            for (t, q) in texts {
                let Term::L(mut rec) = one_read(&run, k, e, &t) else { unreachable!() };
                let p = if q == 0 { None } else { rec[3].list().iter().position(|t| matches!(t.list(), [Term::S(x), Term::I(n)] if (x == "v" || x == "m") && *n >= 99)) };
                rec.push(i(if p.is_none() { 0 } else { q }));
                rec.push(i(p.map_or(0, |p| p as i64 + 1)));
                o.put(&Term::L(rec));
            }
        } else if mode == "skip" {
            // any text at all, in a place that is ignored
            for m in 0..n {
                if size > cap {
                    break;
                }
                let prop = *r.pick(&["P01", "P01", "P02", "P03", "P04", "P05"]);
                let c = mh::texts::input(prop, &mut r, m);
                let t = match r.below(6) {
                    0 => format!("{{\"?\":{}}}", c),
                    1 => format!("{{\"?\":{},\"a\":1,\"s\":\"x\"}}", c),
                    2 => format!("{{\"s\":\"\",\"?\":[{0},{0}],\"a\":2}}", c),
                    3 => format!("{{\"a\":3,\"s\":\"\",\"?\":{{\"x\":{},\"y\":[]}}}}", c),
                    4 => format!("{{\"?\":1,\"a\":4,\"?\":{} ,\"s\":\"\" }}", c),
                    _ => format!("{{\"?\":{},\"?\":{{}},\"a\":5,\"s\":\"\\n\"}}", c),
                };
                if t.len() < 20_000 {
                    size += t.len();
                    o.put(&one_read(&run, k, e, &t));
                }
            }
        } else if mode == "write" {
            let mut put = |f: Term, st: &str, t: &str| o.put(&Term::L(vec![i(k as i64 + 1), f, s(st), bytes(t.as_bytes())]));
            for c in fixed(e.name) {
                match run.case(e.name.as_bytes(), c.1) {
                    None => put(c.0, "panic", ""),
                    Some(t) => put(c.0, "ok", &t),
                }
            }
            if e.name == "Number" {
                // their other textual form
                for m in 0..numbers().len() + n {
                    let x = numbers().into_iter().nth(m).unwrap_or_else(|| Number::arb(&mut r, 0));
                    let f = flat(&x, How::Write);
                    match run.case(e.name.as_bytes(), || (format!("{}", x), x.to_string())) {
                        Some((a, b)) if a == b => put(f, "shown", &a),
                        _ => put(f, "panic", ""),
                    }
                }
            }
            for m in 0..n {
                if size > cap {
                    break;
                }
                let z = m % 5;
                let (f, w) = (e.write.unwrap())(&mut r, z);
                let (st, t) = match run.case(e.name.as_bytes(), w) {
                    None => ("panic", String::new()),
                    Some(t) => ("ok", t),
                };
                size += t.len();
                put(f, st, &t);
            }
        } else {
            for m in 0..n {
                if size > cap {
                    break;
                }
                let Term::L(mut rec) = (e.round.unwrap())(&mut r, m % 5, &run) else { unreachable!() };
                size += 4 * rec[3].list().len();
                rec.insert(0, i(k as i64 + 1));
                o.put(&Term::L(rec));
            }
        }
    }
    println!("records {} types {}", o.n, entries.len());
    write_conf(&arg("conf").unwrap(), &entries, vec![]);
    let _ = tag;
    o.done();
}
