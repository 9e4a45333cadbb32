//! Calls that follow, contain and overlap one another.
//!   sess sched   --jobs F --scheds F --out O    threads taking turns as scheduled
//!   sess history --seed S --n N --bytes B --out O
//!   sess nested  --seed S --n N --bytes B --out O
//!   sess crowd   --seed S --n N --out O         up to N calls in progress at once
//!   sess free    --seed S --n N --out O         threads running freely
//!   sess race    --seed S --n N --out O         threads making N calls each, as fast as they can
//! A record is a list of session records.
use mh::gen;
use miniserde::json::{self, Number, Value};
use mh::probe::{run_job, Baton, Fault, Job};
use mh::rng::Rng;
use mh::run::{arg, init, num, Out, Runner};
use mh::term::{bytes, digits, i, parse, tag, Term};

/// A session record and those nested in it.
fn flatten(t: Term, out: &mut Vec<Term>) {
    let Term::L(mut v) = t else { unreachable!() };
    if v[0].str() != "v" {
        let subs = std::mem::replace(&mut v[7], Term::L(vec![]));
        if let Term::L(s) = subs {
            for x in s {
                flatten(x, out);
            }
        }
    }
    out.push(Term::L(v));
}

fn doc(r: &mut Rng) -> String {
    let mut text = String::new();
    match r.below(10) {
        0..=3 => {
            let mut b = *r.pick(&[3, 8, 15]);
            gen::tree_doc(r, &mut text, 5, &mut b);
        }
        4..=6 => text = gen::random_doc(r),
        7 => {
            let d = r.range(2, 60);
            text = gen::deep_doc(r, d);
        }
        8 => {
            gen::string_lit(r, &mut text);
            text = format!("{{\"\\u0061\":{},\"b\\n\":[{}]}}", text, text);
        }
        _ => {
            let mut k = String::new();
            gen::string_lit(r, &mut k);
            text = format!("[{},{{{}:{}}},\"\\tlong long text\\n\"]", k, k, k);
        }
    }
    if r.chance(1, 4) {
        text = gen::mutate(r, &text);
    }
    text
}

fn value(r: &mut Rng, o: &mut Vec<Term>, depth: usize) {
    match if depth == 0 { r.below(4) } else { r.below(8) } {
        0 => o.push(tag("null", vec![])),
        1 => o.push(tag("u", vec![digits(r.below(1000) as u64)])),
        2 | 3 => o.push(tag("s", vec![bytes(mh::model::arb_string(r).as_bytes())])),
        4 | 5 => {
            let n = r.below(4);
            o.push(tag("a", vec![i(n as i64)]));
            for _ in 0..n {
                value(r, o, depth - 1);
            }
        }
        _ => {
            let n = r.below(4);
            o.push(tag("o", vec![i(n as i64)]));
            for k in 0..n {
                o.push(tag("k", vec![bytes(format!("k\n{}", k).as_bytes())]));
                value(r, o, depth - 1);
            }
        }
    }
}

fn plan(r: &mut Rng) -> Vec<i64> {
    (0..r.range(1, 5)).map(|_| *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6])).collect()
}

fn job(r: &mut Rng, nest: usize) -> Job {
    let fault = match r.below(6) {
        0 => Fault::Panic(1 + r.below(12) as i64),
        1 => Fault::Err(1 + r.below(12) as i64),
        _ => Fault::None,
    };
    let mut j = match r.below(7) {
        0..=2 => Job::read(&doc(r), &plan(r), fault),
        3 | 4 => {
            let mut v = vec![];
            value(r, &mut v, 3);
            let p: Vec<i64> = plan(r).iter().map(|x| x % 5).collect();
            Job::write(&v, &p, if let Fault::Err(_) = fault { Fault::None } else { fault })
        }
        _ => Job::value(&doc(r)),
    };
    if nest > 0 && r.chance(2, 3) {
        for _ in 0..r.range(1, 3) {
            let at = 1 + r.below(8) as i64;
            let n = r.range(1, 2);
            j.nest.insert(at, (0..n).map(|_| job(r, nest - 1)).collect());
        }
    }
    j
}

fn what(js: &[Job]) -> Vec<u8> {
    Term::L(js.iter().map(|j| j.term()).collect()).json().into_bytes()
}

fn sched(run: &Runner, o: &mut Out) {
    let teams: Vec<Vec<Job>> = std::fs::read_to_string(arg("jobs").unwrap()).unwrap().lines().map(|l| parse(l).list().iter().map(Job::parse).collect()).collect();
    for l in std::fs::read_to_string(arg("scheds").unwrap()).unwrap().lines() {
        let t = parse(l);
        let team = &teams[t.list()[0].int() as usize - 1];
        let sc: Vec<usize> = t.list()[1].list().iter().map(|x| x.int() as usize - 1).collect();
        let n = team.len();
        let mut w = what(team);
        w.extend_from_slice(l.as_bytes());
        let recs = run
            .case(&w, || {
                let b = Baton::new(sc.clone(), n);
                let hs: Vec<_> = (0..n)
                    .map(|k| {
                        let (b, j) = (b.clone(), team[k].clone());
                        std::thread::spawn(move || {
                            let r = run_job(&j, Some((b.clone(), k)));
                            b.finish(k);
                            r
                        })
                    })
                    .collect();
                let rs: Vec<Term> = hs.into_iter().map(|h| h.join().expect("recorder thread")).collect();
                let order = b.st.lock().unwrap().order.clone();
                (rs, order)
            })
            .expect("recorder");
        let mut v = vec![];
        for r in recs.0 {
            flatten(r, &mut v);
        }
        o.put(&Term::L(vec![Term::L(v), Term::L(recs.1.iter().map(|k| i(*k as i64 + 1)).collect()), t.list()[1].clone()]));
    }
}

fn history(run: &Runner, o: &mut Out, r: &mut Rng, n: usize, cap: usize, nest: usize) {
    let mut size = 0;
    for _ in 0..n {
        if size > cap {
            break;
        }
        let js: Vec<Job> = (0..if nest > 0 { 1 } else { r.range(2, 8) }).map(|_| job(r, nest)).collect();
        let recs = run.case(&what(&js), || js.iter().map(|j| run_job(j, None)).collect::<Vec<_>>()).expect("recorder");
        let mut v = vec![];
        for x in recs {
            flatten(x, &mut v);
        }
        let t = Term::L(vec![Term::L(v), Term::L(vec![]), Term::L(vec![])]);
        size += t.json().len();
        o.put(&t);
    }
}

/// Many calls of one kind, then recorded ones: what adds up must not show.
fn bursts(run: &Runner, o: &mut Out, r: &mut Rng, each: usize) {
    let deep = |k: usize, open: &str| open.repeat(k);
    let arr = |n: i64| tag("a", vec![i(n)]);
    let mut deepv: Vec<Term> = (0..60).map(|_| arr(1)).collect();
    deepv.push(tag("null", vec![]));
    let kinds: Vec<Job> = vec![
        Job::value(&deep(100, "[")),
        Job::value(&deep(100, "{\"a\":")),
        Job::value("[1,2,3,nope"),
        Job::value("\"\\u12"),
        Job::value("{\"a\\n\":1,\"b\":[{}]}"),
        Job::read("[[1,[2]]]", &[0, 3, 4], Fault::Panic(5)),
        Job::read("[[1,[2]]]", &[0], Fault::Err(5)),
        Job::read("{\"a\":{\"b\":[]}}", &[1], Fault::None),
        Job::read("{\"a\":{\"b\":[]}}", &[0, 1, 2], Fault::None),
        Job::read("[\"\\n\",\"x\"]", &[0], Fault::Panic(3)),
        Job::write(&deepv, &[0], Fault::Panic(90)),
        Job::write(&deepv, &[0, 1, 2, 3, 4], Fault::None),
        Job::value(&format!("{}{}", "[".repeat(300), "]".repeat(300))),
    ];
    let probes: Vec<Job> = vec![
        Job::value("[{\"a\":[1,-2,3.5,\"\\n\",null,true]},\"x\"]"),
        Job::read("{\"a\":[1,{\"b\":null}],\"c\":\"\\u0041\"}", &[0], Fault::None),
        Job::read("{\"a\":[1,{\"b\":null}],\"c\":\"\\u0041\"}", &[0, 1, 2, 3], Fault::None),
        Job::write(&[arr(2), tag("s", vec![bytes(b"a\nb")]), arr(1), tag("null", vec![])], &[0], Fault::None),
        Job::value(&format!("{}{}", "[".repeat(120), "]".repeat(120))),
        Job::value(&format!("{}1{}", "{\"k\":".repeat(120), "}".repeat(120))),
    ];
    for k in &kinds {
        let n = each + r.below(100);
        let w = what(std::slice::from_ref(k));
        run.case(&w, || {
            for _ in 0..n {
                let _ = run_job(k, None);
            }
        });
        let mut v = vec![];
        for p in &probes {
            let x = run.case(&what(std::slice::from_ref(p)), || run_job(p, None)).expect("recorder");
            flatten(x, &mut v);
        }
        let x = run.case(&w, || run_job(k, None)).expect("recorder");
        flatten(x, &mut v);
        o.put(&Term::L(vec![Term::L(v), Term::L(vec![]), Term::L(vec![])]));
    }
}

fn free(run: &Runner, o: &mut Out, r: &mut Rng, n: usize, cap: usize) {
    let mut size = 0;
    for _ in 0..n {
        if size > cap {
            break;
        }
        let js: Vec<Job> = (0..6).map(|_| job(r, 1)).collect();
        let recs = run
            .case(&what(&js), || {
                let bar = std::sync::Arc::new(std::sync::Barrier::new(js.len()));
                let hs: Vec<_> = js
                    .iter()
                    .map(|j| {
                        let (j, bar) = (j.clone(), bar.clone());
                        std::thread::spawn(move || {
                            bar.wait();
                            let mut last = run_job(&j, None);
                            for _ in 0..20 {
                                let again = run_job(&j, None);
                                if again != last {
                                    // keep the differing one: it cannot be right as well
                                    return vec![last, again];
                                }
                                last = again;
                            }
                            vec![last]
                        })
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.join().expect("recorder thread")).collect::<Vec<_>>()
            })
            .expect("recorder");
        let mut v = vec![];
        for x in recs {
            flatten(x, &mut v);
        }
        let t = Term::L(vec![Term::L(v), Term::L(vec![]), Term::L(vec![])]);
        size += t.json().len();
        o.put(&t);
    }
}

/// A call at its k-th callback, without a fault.
fn plain(r: &mut Rng, k: usize) -> Job {
    match k % 4 {
        0 => Job::read("[{\"a\":[1,\"\\n\"]},null,{\"b\":-2.5}]", &plan(r), Fault::None),
        1 => {
            let mut v = vec![tag("a", vec![i(3)])];
            for _ in 0..3 {
                value(r, &mut v, 2);
            }
            Job::write(&v, &[0, 0, 1], Fault::None)
        }
        2 => Job::read(&doc(r), &[0], Fault::None),
        _ => Job::read("{\"x\":{\"y\":[[],{}]},\"\\u0041\":\"z\"}", &[0, 0, 3], Fault::None),
    }
}

/// Very many calls in progress at once: each inside a callback of the one
/// before, or all on threads of their own, callback by callback.
fn crowd(run: &Runner, o: &mut Out, r: &mut Rng, most: usize) {
    let put = |o: &mut Out, recs: Vec<Term>| {
        let mut v = vec![];
        for x in recs {
            flatten(x, &mut v);
        }
        o.put(&Term::L(vec![Term::L(v), Term::L(vec![]), Term::L(vec![])]));
    };
    for depth in [8, 17, 20, 26, 33, 40, 50, 65, 80, 100, 129, 160, 260, 400] {
        if depth > most {
            break;
        }
        for style in 0..4 {
            let mut j = if depth % 2 == 0 { Job::value("[{\"a\":[1,\"\\t\"]},{}]") } else { plain(r, 0) };
            for k in 0..depth {
                let mut x = match style {
                    0 => Job::read("[[1],\"\\u00e9\"]", &[0], Fault::None),
                    1 => Job::write(&[tag("a", vec![i(2)]), tag("s", vec![bytes(b"a\n")]), tag("u", vec![digits(7)])], &[0], Fault::None),
                    _ => plain(r, k),
                };
                let at = if style < 3 { 1 + (k % 3) as i64 } else { 1 };
                x.nest.insert(at, vec![j]);
                j = x;
            }
            let recs = run.case(&what(std::slice::from_ref(&j)), || run_job(&j, None)).expect("recorder");
            put(o, vec![recs]);
        }
    }
    for n in [10, 20, 30, 40, 70, 130] {
        if n > most {
            break;
        }
        for style in 0..4 {
            let js: Vec<Job> = (0..n)
                .map(|k| match style {
                    0 => Job::read("[[1],\"\\u00e9\",[2]]", &[0], Fault::None),
                    1 => Job::write(&[tag("a", vec![i(2)]), tag("s", vec![bytes(b"a\n")]), tag("u", vec![digits(k as u64)])], &[0], Fault::None),
                    2 => plain(r, k),
                    _ => job(r, 1),
                })
                .collect();
            // rounds: every thread makes one callback, in changing order
            let mut sc = vec![];
            for round in 0..8 {
                let mut p: Vec<usize> = (0..n).collect();
                if round > 0 {
                    for a in (1..n).rev() {
                        p.swap(a, r.below(a + 1));
                    }
                }
                sc.extend(p);
            }
            let recs = run
                .case(&what(&js), || {
                    let b = Baton::new(sc.clone(), n);
                    let hs: Vec<_> = (0..n)
                        .map(|k| {
                            let (b, j) = (b.clone(), js[k].clone());
                            std::thread::Builder::new()
                                .stack_size(1 << 20)
                                .spawn(move || {
                                    let r = run_job(&j, Some((b.clone(), k)));
                                    b.finish(k);
                                    r
                                })
                                .expect("a thread")
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("recorder thread")).collect::<Vec<_>>()
                })
                .expect("recorder");
            put(o, recs);
        }
    }
}

/// Equal to the bit.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Number(Number::U64(x)), Value::Number(Number::U64(y))) => x == y,
        (Value::Number(Number::I64(x)), Value::Number(Number::I64(y))) => x == y,
        (Value::Number(Number::F64(x)), Value::Number(Number::F64(y))) => x.to_bits() == y.to_bits(),
        (Value::String(x), Value::String(y)) => x == y,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|((j, x), (k, y))| j == k && same(x, y)),
        _ => false,
    }
}

/// A document of one kind of content, different for every `k`.
fn dense(r: &mut Rng, kind: usize, k: usize) -> String {
    let mut items = vec![];
    for n in 0..6 {
        let x = k * 6 + n;
        items.push(match kind {
            // the same digits or the same exponent now and then
            0 => format!("{}.{}", x, *r.pick(&["5", "25", "125"])),
            1 => format!("{}e{}", r.range(1, 3), *r.pick(&["3", "-3", "12", "-40", "200", "400"])),
            2 => format!("{}{}", r.range(1, 9), "7".repeat(r.range(1, 25))),
            3 => format!("-{}", r.next() >> r.below(60)),
            4 => format!("\"{}\\n{}\"", "a".repeat(r.below(20)), x),
            5 => format!("\"\\u{:04x}{}\\ud83d\\u{:04x}\"", 0x100 + x, x, 0xde00 + x),
            6 => format!("\"{}{}\"", *r.pick(&["x", "é", "€"]), x),
            7 => format!("{{\"a\":{},\"b{}\":[],\"c\\t\":{{}}}}", x, k),
            8 => format!("{}{}{}", "[".repeat(n + k), x, "]".repeat(n + k)),
            9 => (*r.pick(&["null", "true", "false", "[]", "{}", "\"\""])).to_string(),
            _ => {
                let mut t = String::new();
                let mut b = 3;
                gen::tree_doc(r, &mut t, 3, &mut b);
                t
            }
        });
    }
    if kind == 7 && k % 2 == 1 {
        return format!("{{\"k{}\":{}}}", k, items.join(&format!(",\"a{}\":", k)));
    }
    format!("[{}]", items.join(","))
}

/// Threads that read and write without a pause, each its own document: what
/// a call returns is compared with what the thread's first call returned, and
/// the first results and all that differ are recorded.
fn race(run: &Runner, o: &mut Out, r: &mut Rng, each: usize) {
    for kind in 0..13 {
        let texts: Vec<String> = (0..8)
            .map(|k| {
                let t = dense(r, if kind == 12 { k } else { kind }, k);
                if kind == 11 {
                    gen::mutate(r, &t)
                } else {
                    t
                }
            })
            .collect();
        let recs = run
            .case(&what(&texts.iter().map(|t| Job::value(t)).collect::<Vec<_>>()), || {
                let bar = std::sync::Arc::new(std::sync::Barrier::new(texts.len()));
                let hs: Vec<_> = texts
                    .iter()
                    .map(|t| {
                        let (t, bar) = (t.clone(), bar.clone());
                        std::thread::spawn(move || {
                            bar.wait();
                            let read = |v: &Option<Value>| {
                                let (st, flat) = match v {
                                    None => ("err", Term::L(vec![])),
                                    Some(v) => ("ok", mh::flat::value_term(v)),
                                };
                                tag("v", vec![bytes(t.as_bytes()), mh::term::s(st), flat])
                            };
                            let wrote = |v: &Value, t: &str| tag("t", vec![bytes(t.as_bytes()), mh::flat::value_term(v)]);
                            let first = json::from_str::<Value>(&t).ok();
                            let text = first.as_ref().map(|v| json::to_string(v)).unwrap_or_default();
                            let mut rs = vec![read(&first)];
                            if let Some(v) = &first {
                                rs.push(wrote(v, &text));
                            }
                            for _ in 0..each {
                                let again = json::from_str::<Value>(&t).ok();
                                let ok = match (&first, &again) {
                                    (None, None) => true,
                                    (Some(a), Some(b)) => same(a, b),
                                    _ => false,
                                };
                                if !ok {
                                    rs.push(read(&again));
                                    break;
                                }
                                if let Some(v) = &again {
                                    let w = json::to_string(v);
                                    if w != text {
                                        rs.push(wrote(v, &w));
                                        break;
                                    }
                                }
                            }
                            rs
                        })
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.join().expect("recorder thread")).collect::<Vec<_>>()
            })
            .expect("recorder");
        o.put(&Term::L(vec![Term::L(recs), Term::L(vec![]), Term::L(vec![])]));
    }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap();
    let outp = arg("out").unwrap();
    init(&outp, 60);
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let mut r = Rng::new(num("seed", 1) ^ 0x5e55);
    let (n, cap) = (num("n", 100) as usize, num("bytes", 1_000_000) as usize);
    match mode.as_str() {
        "sched" => sched(&run, &mut o),
        "history" => history(&run, &mut o, &mut r, n, cap, 0),
        "nested" => history(&run, &mut o, &mut r, n, cap, 3),
        "bursts" => bursts(&run, &mut o, &mut r, n),
        "crowd" => crowd(&run, &mut o, &mut r, n),
        "free" => free(&run, &mut o, &mut r, n, cap),
        "race" => race(&run, &mut o, &mut r, n),
        _ => panic!("mode"),
    }
    println!("records {}", o.n);
    o.done();
}
