//! Reads and writes through user-defined probes, recording every callback.
//!   drv words  --tokens F --len L --plans F --out O     all words, no faults
//!   drv faults --tokens F --len L --plans F --out O     accepted words, a fault at every callback
//!   drv bulk   --seed S --n N --bytes B --out O         random documents, plans and faults
//!   drv widereads --seed S --heavy H --out O            very wide documents, some with a fault far in
//!   drv widewrites --seed S --heavy H --out O           very wide values, some with a fault far in
//!   drv writes --seed S --n N --bytes B --out O [--depth D]
use mh::gen;
use mh::probe::{run_job, Fault, Job};
use mh::rng::Rng;
use mh::run::{arg, init, num, Out, Runner};
use mh::term::{bytes, digits, i, parse, tag, Term};

fn go(run: &Runner, j: &Job) -> Term {
    let what = j.term().json().into_bytes();
    run.case(&what, || run_job(j, None)).expect("the recorder itself panicked")
}

fn calls(rec: &Term) -> i64 {
    rec.list()[5].list().iter().filter(|e| e.list()[0].str() != "drop").count() as i64
}

fn plans() -> Vec<Vec<i64>> {
    parse(&std::fs::read_to_string(arg("plans").unwrap()).unwrap()).list().iter().map(|p| p.list().iter().map(|x| x.int()).collect()).collect()
}

fn all_words(run: &Runner, o: &mut Out, faults: bool) {
    let tok: Vec<Vec<u8>> = parse(&std::fs::read_to_string(arg("tokens").unwrap()).unwrap()).list().iter().map(|t| t.as_bytes()).collect();
    let len = num("len", 4) as usize;
    let plans = plans();
    let mut w: Vec<usize> = vec![];
    let mut seen = std::collections::HashSet::new();
    loop {
        let text: Vec<u8> = w.iter().flat_map(|t| tok[*t].clone()).collect();
        if let Ok(text) = String::from_utf8(text) {
            if seen.insert(text.clone()) {
                for (k, plan) in plans.iter().enumerate() {
                    let rec = go(run, &Job::read(&text, &plan, Fault::None));
                    let ok = rec.list()[6].str() == "ok";
                    let n = calls(&rec);
                    if !faults {
                        if n > 0 && (k == 0 || ok) {
                            o.put(&rec);
                        }
                    } else if ok {
                        for k in 1..=n {
                            o.put(&go(run, &Job::read(&text, &plan, Fault::Err(k))));
                            o.put(&go(run, &Job::read(&text, &plan, Fault::Panic(k))));
                        }
                    }
                }
            }
        }
        if w.len() < len {
            w.push(0);
            continue;
        }
        loop {
            match w.pop() {
                None => return,
                Some(t) if t + 1 < tok.len() => {
                    w.push(t + 1);
                    break;
                }
                _ => {}
            }
        }
        if w.is_empty() {
            return;
        }
    }
}

fn a_plan(r: &mut Rng) -> Vec<i64> {
    match r.below(4) {
        0 => vec![0],
        1 => vec![*r.pick(&[0, 3, 4, 5, 6])],
        2 => (0..r.range(2, 5)).map(|_| *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6])).collect(),
        _ => (0..r.range(2, 9)).map(|_| *r.pick(&[0, 3, 4, 5, 6])).collect(),
    }
}

fn bulk(run: &Runner, o: &mut Out, seed: u64, faults: bool, ignore: bool) {
    let mut r = Rng::new(seed);
    let (n, cap) = (num("n", 100) as usize, num("bytes", 1_000_000) as usize);
    let mut size = 0;
    for k in 0..n {
        if size > cap {
            break;
        }
        let mut text = String::new();
        match r.below(24) {
            0..=9 => {
                let mut b = *r.pick(&[5, 15, 40]);
                gen::tree_doc(&mut r, &mut text, 8, &mut b);
            }
            10..=17 => text = gen::random_doc(&mut r),
            18..=21 => {
                let d = r.range(2, 40);
                text = gen::deep_doc(&mut r, d);
            }
            22 if k % 3 == 0 => {
                let d = *r.pick(&[100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000]);
                text = gen::deep_doc(&mut r, d);
            }
            22 => {
                text = gen::long_string(&mut r);
            }
            _ => {
                let w = *r.pick(&[10, 50, 64, 65, 128, 200, 300]);
                text = gen::wide_doc(&mut r, w);
            }
        }
        if r.chance(1, if faults { 10 } else { 3 }) {
            text = gen::mutate(&mut r, &text);
        }
        let plan = if ignore { (0..r.range(1, 6)).map(|k| if k == 0 && r.chance(4, 5) { 0 } else { *r.pick(&[0, 1, 1, 3]) }).collect() } else { a_plan(&mut r) };
        let plain = go(run, &Job::read(&text, &plan, Fault::None));
        let c = calls(&plain);
        if !faults {
            size += plain.json().len();
            o.put(&plain);
            continue;
        }
        if c == 0 {
            continue;
        }
        for _ in 0..if c > 200 { 2 } else { 5 } {
            let at = match r.below(4) {
                0 => c - (r.below(3) as i64).min(c - 1),
                1 => 1 + r.below((c as usize).min(4)) as i64,
                _ => 1 + r.below(c as usize) as i64,
            };
            let f = if r.chance(1, 2) { Fault::Err(at) } else { Fault::Panic(at) };
            let rec = go(run, &Job::read(&text, &plan, f));
            size += rec.json().len();
            o.put(&rec);
        }
    }
}

fn a_value(r: &mut Rng, o: &mut Vec<Term>, depth: usize, budget: &mut isize) {
    *budget -= 1;
    let k = if depth == 0 || *budget <= 0 { r.below(6) } else { r.below(12) };
    match k {
        0 => o.push(tag("null", vec![])),
        1 => o.push(tag("b", vec![i(r.below(2) as i64)])),
        2 => {
            let n = if r.chance(1, 2) { r.below(10) as u64 } else { r.next() };
            o.push(tag("u", vec![digits(n)]))
        }
        3 => {
            let n = if r.chance(1, 2) { r.below(10) as i64 } else { r.next() as i64 };
            let n = n.unsigned_abs().min(1 << 63);
            o.push(tag("i", vec![i((n > 0) as i64), digits(n)]))
        }
        4 => o.push(tag("s", vec![bytes(mh::model::arb_string(r).as_bytes())])),
        5 | 6..=8 => {
            let n = if k == 5 || *budget <= 0 { 0 } else { *r.pick(&[0, 1, 1, 2, 2, 3, 5, 9]) };
            o.push(tag("a", vec![i(n as i64)]));
            for _ in 0..n {
                a_value(r, o, depth - 1, budget);
            }
        }
        _ => {
            let n = if *budget <= 0 { 0 } else { *r.pick(&[0, 1, 1, 2, 2, 3, 5, 9]) };
            o.push(tag("o", vec![i(n as i64)]));
            for _ in 0..n {
                let kx = if r.chance(2, 3) { r.pick(&["a", "b", "", "a", "\"", "é"]).to_string() } else { mh::model::arb_string(r) };
                o.push(tag("k", vec![bytes(kx.as_bytes())]));
                a_value(r, o, depth - 1, budget);
            }
        }
    }
}

fn deep_value(r: &mut Rng, d: usize) -> Vec<Term> {
    let mut o = vec![];
    let mut tail = vec![];
    let sib = r.chance(1, 2);
    for k in 0..d {
        let before = sib && r.chance(1, 4);
        let after = sib && r.chance(1, 4);
        let n = 1 + before as i64 + after as i64;
        let arr = if r.chance(1, 3) { k % 2 == 0 } else { r.chance(1, 2) };
        o.push(tag(if arr { "a" } else { "o" }, vec![i(n)]));
        let key = |o: &mut Vec<Term>| {
            if !arr {
                o.push(tag("k", vec![bytes(b"k")]));
            }
        };
        if before {
            key(&mut o);
            o.push(tag("b", vec![i(1)]));
        }
        key(&mut o);
        let mut t = vec![];
        if after {
            key(&mut t);
            t.push(tag("a", vec![i(0)]));
        }
        tail.push(t);
    }
    o.push(tag("null", vec![]));
    while let Some(t) = tail.pop() {
        o.extend(t);
    }
    o
}

fn writes(run: &Runner, o: &mut Out, seed: u64) {
    let mut r = Rng::new(seed ^ 0x57);
    let (n, cap) = (num("n", 100) as usize, num("bytes", 1_000_000) as usize);
    let mut size = 0;
    // every small shape: faults at every callback
    let mut small: Vec<Vec<Term>> = vec![vec![]];
    let nodes = num("shapes", 4) as usize;
    small = shapes(nodes, &mut small);
    let mut plans: Vec<Vec<i64>> = vec![vec![0], vec![0, 1, 2, 3, 4], vec![3, 4, 4, 2]];
    plans.truncate(num("nplans", 3) as usize);
    for v in &small {
        for plan in &plans {
            let rec = go(run, &Job::write(&v, &plan, Fault::None));
            let c = calls(&rec);
            o.put(&rec);
            for k in 1..=c {
                o.put(&go(run, &Job::write(&v, &plan, Fault::Panic(k))));
            }
        }
    }
    for k in 0..n {
        if size > cap {
            break;
        }
        let mut v = vec![];
        if r.chance(1, 8) {
            let d = if k % 5 == 0 { *r.pick(&[100, 128, 129, 255, 256, 257, 500, 1000]) } else { r.range(3, 40) };
            v = deep_value(&mut r, d);
        } else {
            let mut b = *r.pick(&[3, 8, 20, 60]);
            let d = *r.pick(&[1, 2, 4, 10]);
            a_value(&mut r, &mut v, d, &mut b);
        }
        let plan: Vec<i64> = match r.below(3) {
            0 => vec![0],
            _ => (0..r.range(1, 7)).map(|_| *r.pick(&[0, 0, 1, 2, 3, 4])).collect(),
        };
        let rec = go(run, &Job::write(&v, &plan, Fault::None));
        let c = calls(&rec);
        size += rec.json().len();
        o.put(&rec);
        for _ in 0..2 {
            let at = 1 + r.below(c as usize) as i64;
            let rec = go(run, &Job::write(&v, &plan, Fault::Panic(at)));
            size += rec.json().len();
            o.put(&rec);
        }
    }
}

const ITEMS: &[&str] = &["1", "null", "[]", "{}", "\"x\"", "[2]", "{\"k\":3}", "-4", "true", "[[],{}]"];

/// n items: all of one kind, or of all kinds in turn.
fn wide_array(n: usize, kind: usize) -> String {
    let v: Vec<&str> = (0..n).map(|k| if kind < ITEMS.len() { ITEMS[kind] } else { ITEMS[k * 7 % ITEMS.len()] }).collect();
    format!("[{}]", v.join(","))
}
fn wide_object(n: usize, kind: usize, distinct: bool) -> String {
    let v: Vec<String> = (0..n).map(|k| format!("\"{}\":{}", if distinct { format!("k{}", k) } else { "k".to_string() }, if kind < ITEMS.len() { ITEMS[kind] } else { ITEMS[k * 7 % ITEMS.len()] })).collect();
    format!("{{{}}}", v.join(","))
}

fn wide_reads(run: &Runner, o: &mut Out, seed: u64) {
    let mut r = Rng::new(seed ^ 0x71de);
    let heavy = num("heavy", 0) as usize;
    let mut docs: Vec<String> = vec![];
    for n in [3, 10, 20, 40, 1000, 1023, 1025, 2049, 4095, 4096, 4097, 5000, 8200] {
        docs.push(wide_array(n, if n > 4500 { 0 } else { 99 }));
        docs.push(wide_object(n, r.below(12), r.chance(1, 2)));
    }
    for n in if heavy == 0 { vec![17000, 66000] } else { vec![17000, 33000, 66000, 132000, 263000] } {
        let kind = r.below(3);
        docs.push(wide_array(n, kind));
        docs.push(wide_object(n / 2, 0, false));
    }
    // rows, members within members, and width at the bottom of depth
    let rows = |n: usize, row: String| format!("[{}]", vec![row; n].join(","));
    docs.push(rows(70, wide_array(70, 1)));
    docs.push(rows(300, wide_array(if heavy == 0 { 30 } else { 300 }, 0)));
    docs.push(rows(1500, wide_object(2, 99, false)));
    docs.push(wide_object(40, 0, true).replace(":1", &format!(":{}", wide_array(120, 99))));
    for d in [50, 200, 700] {
        docs.push(format!("{}{}{}", "[1,".repeat(d), wide_array(1500, 99), ",2]".repeat(d)));
        docs.push(format!("{}{}{}", "{\"a\":".repeat(d), wide_object(1500, 1, false), "}".repeat(d)));
    }
    for d in [2000, 5000] {
        docs.push(format!("{}{}", "[".repeat(d), "]".repeat(d)));
        docs.push(format!("{}1{}", "[0,{\"a\":".repeat(d / 2), "},0]".repeat(d / 2)));
    }
    for (k, text) in docs.iter().enumerate() {
        let plan = match k % 4 {
            0 | 2 => vec![0],
            1 => vec![0, 0, 3, 4, 5, 6],
            _ => a_plan(&mut r),
        };
        let rec = go(run, &Job::read(text, &plan, Fault::None));
        let c = calls(&rec);
        o.put(&rec);
        if text.len() > 70000 && heavy == 0 && k % 2 == 0 {
            continue;
        }
        if c > 3 {
            let at = if r.chance(1, 2) { c - r.below(3) as i64 } else { c / 2 + r.below(c as usize / 2) as i64 };
            o.put(&go(run, &Job::read(text, &plan, if k % 2 == 0 { Fault::Err(at) } else { Fault::Panic(at) })));
        }
        // malformed at the very end
        let bad = match k % 3 {
            0 => text[..text.len() - 1].to_string(),
            1 => format!("{},{}", &text[..text.len() - 1], &text[text.len() - 1..]),
            _ => format!("{} 1", text),
        };
        o.put(&go(run, &Job::read(&bad, &plan, Fault::None)));
    }
}

fn wide_values(r: &mut Rng, heavy: bool) -> Vec<Vec<Term>> {
    let scalar = |k: usize| match k % 4 {
        0 => tag("u", vec![digits(k as u64)]),
        1 => tag("null", vec![]),
        2 => tag("b", vec![i(1)]),
        _ => tag("s", vec![bytes(b"s")]),
    };
    let mut out = vec![];
    let mut flat = |map: bool, n: usize, item: &dyn Fn(usize) -> Vec<Term>| {
        let mut v = vec![tag(if map { "o" } else { "a" }, vec![i(n as i64)])];
        for k in 0..n {
            if map {
                v.push(tag("k", vec![bytes(format!("k{}", k % 1000).as_bytes())]));
            }
            v.extend(item(k));
        }
        out.push(v);
    };
    for n in [2, 5, 10, 20, 40, 999, 1000, 1001, 1024, 2047, 4096, 4097, 5000] {
        for map in [false, true] {
            flat(map, n, &|k| vec![scalar(k)]);
        }
    }
    for n in if heavy { vec![17000, 33000, 66000, 132000] } else { vec![17000, 66000] } {
        flat(false, n, &|_| vec![scalar(0)]);
        flat(true, n / 4, &|_| vec![scalar(1)]);
    }
    for n in [1200, 3000] {
        for map in [false, true] {
            flat(map, n, &|k| match k % 5 {
                0 => vec![tag("a", vec![i(0)])],
                1 => vec![tag("o", vec![i(0)])],
                2 => vec![tag("a", vec![i(2)]), scalar(0), scalar(1)],
                3 => vec![tag("o", vec![i(1)]), tag("k", vec![bytes(b"z")]), scalar(k)],
                _ => vec![scalar(k)],
            });
        }
    }
    let row = r.range(60, 110);
    for map in [false, true] {
        flat(map, 60, &|_| {
            let mut v = vec![tag("a", vec![i(row as i64)])];
            v.extend((0..row).map(scalar));
            v
        });
    }
    // width at the bottom of depth
    for d in [60, 300] {
        let mut v = vec![];
        for k in 0..d {
            v.push(tag(if k % 3 == 0 { "o" } else { "a" }, vec![i(1)]));
            if k % 3 == 0 {
                v.push(tag("k", vec![bytes(b"d")]));
            }
        }
        v.push(tag("a", vec![i(1300)]));
        v.extend((0..1300).map(scalar));
        out.push(v);
    }
    out
}

fn wide_writes(run: &Runner, o: &mut Out, seed: u64) {
    let mut r = Rng::new(seed ^ 0x71d3);
    let heavy = num("heavy", 0) == 1;
    for (k, v) in wide_values(&mut r, heavy).iter().enumerate() {
        let plan = match k % 4 {
            0 | 1 => vec![0],
            2 => vec![0, 1, 2, 3, 4],
            _ => (0..r.range(2, 7)).map(|_| *r.pick(&[0, 0, 1, 2, 3, 4])).collect(),
        };
        let rec = go(run, &Job::write(v, &plan, Fault::None));
        let c = calls(&rec);
        o.put(&rec);
        if v.len() < 10000 || heavy {
            let at = if r.chance(1, 2) { c - r.below(3) as i64 } else { c / 2 + r.below(c as usize / 2) as i64 };
            o.put(&go(run, &Job::write(v, &plan, Fault::Panic(at))));
        }
    }
}

/// Every value of at most n nodes, with leaves of one kind.
fn shapes(n: usize, _: &mut Vec<Vec<Term>>) -> Vec<Vec<Term>> {
    // by[k]: values of exactly k nodes; forest[k][m]: m values of k nodes together
    fn forests(by: &[Vec<Vec<Term>>], k: usize, key: bool) -> Vec<(i64, Vec<Term>)> {
        if k == 0 {
            return vec![(0, vec![])];
        }
        let mut out = vec![];
        for first in 1..=k {
            for f in &by[first] {
                for (m, rest) in forests(by, k - first, key) {
                    let mut v = vec![];
                    if key {
                        v.push(tag("k", vec![bytes(if m % 2 == 0 { b"a" } else { b"b" })]));
                    }
                    v.extend(f.iter().cloned());
                    v.extend(rest);
                    out.push((m + 1, v));
                }
            }
        }
        out
    }
    let mut by: Vec<Vec<Vec<Term>>> = vec![vec![]];
    for k in 1..=n {
        let mut here = vec![];
        if k == 1 {
            here.push(vec![tag("null", vec![])]);
            here.push(vec![tag("u", vec![digits(1)])]);
        }
        for key in [false, true] {
            for (m, f) in forests(&by, k - 1, key) {
                let mut v = vec![tag(if key { "o" } else { "a" }, vec![i(m)])];
                v.extend(f);
                here.push(v);
            }
        }
        by.push(here);
    }
    by.into_iter().flatten().collect()
}

fn main() {
    let mode = std::env::args().nth(1).unwrap();
    let outp = arg("out").unwrap();
    init(&outp, 30);
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let seed = num("seed", 1);
    match mode.as_str() {
        "words" => all_words(&run, &mut o, false),
        "faults" => all_words(&run, &mut o, true),
        "bulk" => bulk(&run, &mut o, seed, false, false),
        "ignore" => bulk(&run, &mut o, seed ^ 0x16, false, true),
        "bulkfaults" => bulk(&run, &mut o, seed ^ 0xfa, true, false),
        "writes" => writes(&run, &mut o, seed),
        "widereads" => wide_reads(&run, &mut o, seed),
        "widewrites" => wide_writes(&run, &mut o, seed),
        _ => panic!("mode"),
    }
    println!("records {}", o.n);
    o.done();
}
