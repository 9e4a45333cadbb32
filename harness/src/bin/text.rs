//! Reads texts into the untyped value and records what came out.
//!   text bulk  --prop P --seed S --n N --out FILE [--cases FILE]
//!   text words --tokens FILE --len L --out FILE
use mh::texts::{fixed, input};
use mh::rng::Rng;
use mh::run::{arg, init, num, Out, Runner};
use mh::term::{bytes, i, parse, s, Term};
use miniserde::json::{self, Value};

fn record(run: &Runner, text: &str) -> Term {
    let r = run.case(text.as_bytes(), || {
        json::from_str::<Value>(text).ok().map(|v| {
            let f = mh::flat::value_term(&v);
            drop(v);
            f
        })
    });
    let (st, flat) = match r {
        None => ("panic", Term::L(vec![])),
        Some(None) => ("err", Term::L(vec![])),
        Some(Some(f)) => ("ok", f),
    };
    Term::L(vec![bytes(text.as_bytes()), s(st), flat])
}

fn words() {
    // tokens: a list of byte strings; every sequence of up to L of them
    let tok: Vec<Vec<u8>> = parse(&std::fs::read_to_string(arg("tokens").unwrap()).unwrap()).list().iter().map(|t| t.as_bytes()).collect();
    let len = num("len", 4) as usize;
    let outp = arg("out").unwrap();
    init(&outp, 20);
    let acc = std::sync::Mutex::new(vec![]);
    let bad = std::sync::Mutex::new(vec![]);
    let total = std::sync::atomic::AtomicU64::new(0);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let nt = tok.len();
    let heads: Vec<Vec<usize>> = (0..nt * nt).map(|k| vec![k / nt, k % nt]).collect();
    std::thread::scope(|sc| {
        for slot in 0..8 {
            let (tok, acc, bad, total, next, heads, outp) = (&tok, &acc, &bad, &total, &next, &heads, &outp);
            sc.spawn(move || {
                let run = Runner::new(outp, slot);
                let mut count = 0;
                let mut mine = vec![];
                let mut one = |w: &[usize], text: &str, mine: &mut Vec<Vec<usize>>| {
                    count += 1;
                    match std::panic::catch_unwind(|| json::from_str::<Value>(text).is_ok()) {
                        Ok(true) => mine.push(w.to_vec()),
                        Ok(false) => {}
                        Err(_) => bad.lock().unwrap().push(w.to_vec()),
                    }
                };
                loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= heads.len() {
                        break;
                    }
                    let h = &heads[k];
                    if k == 0 {
                        one(&[], "", &mut mine);
                        for t in 0..nt {
                            if let Ok(x) = std::str::from_utf8(&tok[t]) {
                                one(&[t], x, &mut mine);
                            }
                        }
                    }
                    // depth first below h
                    let mut w = h.clone();
                    let mut text: Vec<u8> = w.iter().flat_map(|t| tok[*t].clone()).collect();
                    run.case(&text.clone(), || loop {
                        if let Ok(x) = std::str::from_utf8(&text) {
                            one(&w, x, &mut mine);
                        }
                        if w.len() < len {
                            w.push(0);
                            text.extend_from_slice(&tok[0]);
                            continue;
                        }
                        loop {
                            if w.len() <= 2 {
                                return;
                            }
                            let t = w.pop().unwrap();
                            text.truncate(text.len() - tok[t].len());
                            if t + 1 < nt {
                                w.push(t + 1);
                                text.extend_from_slice(&tok[t + 1]);
                                break;
                            }
                        }
                    });
                }
                acc.lock().unwrap().extend(mine);
                total.fetch_add(count, std::sync::atomic::Ordering::Relaxed);
            });
        }
    });
    let mut o = Out::new(&outp);
    let mut acc = acc.into_inner().unwrap();
    acc.sort();
    let li = |w: &Vec<usize>| Term::L(w.iter().map(|t| i(*t as i64 + 1)).collect());
    let run = Runner::new(&outp, 0);
    for w in acc.iter().chain(bad.lock().unwrap().iter()) {
        let text = String::from_utf8(w.iter().flat_map(|t| tok[*t].clone()).collect()).unwrap();
        let mut rec = match record(&run, &text) {
            Term::L(v) => v,
            _ => unreachable!(),
        };
        rec.push(li(w));
        o.put(&Term::L(rec));
    }
    println!("words {} accepted {}", total.into_inner(), acc.len());
    o.done();
}

/// A struct whose members are all unknown: everything in it is ignored.
#[derive(miniserde::Deserialize)]
struct Skip {}

/// Words between the halves of contexts; writes down those that are accepted.
fn context() {
    let load = |n: &str| parse(&std::fs::read_to_string(arg(n).unwrap()).unwrap());
    let tok: Vec<Vec<u8>> = load("tokens").list().iter().map(|t| t.as_bytes()).collect();
    let piece = |t: &Term| t.list().iter().flat_map(|p| p.list()[0].as_bytes().repeat(p.list()[1].int() as usize)).collect::<Vec<u8>>();
    let ctx: Vec<(Vec<u8>, Vec<u8>)> = load("contexts").list().iter().map(|c| (piece(&c.list()[0]), piece(&c.list()[1]))).collect();
    let len = num("len", 3) as usize;
    let ignored = arg("into").unwrap() == "ignored";
    let outp = arg("out").unwrap();
    init(&outp, 60);
    let jobs: Vec<(usize, Option<usize>)> = (0..ctx.len()).flat_map(|k| std::iter::once((k, None)).chain((0..tok.len()).map(move |t| (k, Some(t)))).collect::<Vec<_>>()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::atomic::AtomicU64::new(0);
    let got = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for slot in 0..8 {
            let (tok, ctx, jobs, next, total, got, outp) = (&tok, &ctx, &jobs, &next, &total, &got, &outp);
            sc.spawn(move || {
                let run = Runner::new(outp, slot);
                let mut mine = vec![];
                let mut count = 0;
                loop {
                    let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if j >= jobs.len() {
                        break;
                    }
                    let (k, first) = jobs[j];
                    let mut w: Vec<usize> = first.into_iter().collect();
                    loop {
                        let mut text = ctx[k].0.clone();
                        w.iter().for_each(|t| text.extend_from_slice(&tok[*t]));
                        text.extend_from_slice(&ctx[k].1);
                        if let Ok(x) = std::str::from_utf8(&text) {
                            count += 1;
                            let ok = run.case(&text, || if ignored { json::from_str::<Skip>(x).is_ok() } else { json::from_str::<Value>(x).is_ok() });
                            if ok != Some(false) {
                                mine.push((k, w.clone(), if ok.is_some() { "ok" } else { "panic" }));
                            }
                        }
                        // next word with this first token
                        if first.is_none() {
                            break;
                        }
                        if w.len() < len {
                            w.push(0);
                            continue;
                        }
                        while w.len() > 1 && w[w.len() - 1] + 1 == tok.len() {
                            w.pop();
                        }
                        if w.len() == 1 {
                            break;
                        }
                        *w.last_mut().unwrap() += 1;
                    }
                }
                got.lock().unwrap().extend(mine);
                total.fetch_add(count, std::sync::atomic::Ordering::Relaxed);
            });
        }
    });
    let mut o = Out::new(&outp);
    let mut got = got.into_inner().unwrap();
    got.sort();
    for (k, w, st) in &got {
        o.put(&Term::L(vec![i(*k as i64 + 1), Term::L(w.iter().map(|t| i(*t as i64 + 1)).collect()), s(st)]));
    }
    println!("words {} accepted {}", total.into_inner(), got.len());
    o.done();
}

/// Documents of very many members, names ascending.
fn wide() {
    let outp = arg("out").unwrap();
    init(&outp, 60);
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let mut r = Rng::new(num("seed", 1));
    let scale = num("scale", 1) as usize;
    let join = |n: usize, a: &str, b: &str, f: &dyn Fn(usize) -> String| format!("{}{}{}", a, (0..n).map(f).collect::<Vec<_>>().join(","), b);
    let odd = r.below(1000);
    let texts = [
        join(140_000 * scale + odd, "[", "]", &|k| (k % 1000).to_string()),
        join(70_000 * scale + odd, "[", "]", &|k| ["null", "true", "[]", "{}", "\"x\"", "-1", "[0]"][k % 7].to_string()),
        join(66_000 * scale + odd, "{", "}", &|k| format!("\"{:06}\":{}", k, k % 10)),
        join(300 * scale, "[", "]", &|k| join(260, "[", "]", &|j| ((k + j) % 10).to_string())),
        join(270 * scale, "{", "}", &|k| format!("\"{:04}\":{}", k, join(257, "{", "}", &|j| format!("\"{:03}\":null", j)))),
        join(66_000 * scale + odd, "[", "]", &|k| format!("\"{}\"", k % 77)),
        join(66_000 * scale + odd, "[", ",]", &|k| (k % 10).to_string()),
        join(66_000 * scale + odd, "{", "]", &|k| format!("\"{:06}\":0", k)),
    ];
    // small ones of the same kinds, to be corrupted
    let small = [join(300, "[", "]", &|k| k.to_string()), join(200, "{", "}", &|k| format!("\"{:03}\":[{}]", k, k))];
    for t in texts.iter().chain(&small) {
        o.put(&record(&run, t));
    }
    println!("records {}", o.n);
    o.done();
}

/// Strings as runs of characters.
fn char_runs(b: &[u8]) -> Term {
    let mut v: Vec<(&[u8], i64)> = vec![];
    let mut k = 0;
    while k < b.len() {
        // by hand, since the bytes may be anything
        let n = match b[k] { 0..=0x7f => 1, 0x80..=0xdf => 2, 0xe0..=0xef => 3, _ => 4 }.min(b.len() - k);
        let c = &b[k..k + n];
        match v.last_mut() {
            Some((d, m)) if *d == c => *m += 1,
            _ => v.push((c, 1)),
        }
        k += n;
    }
    Term::L(v.iter().map(|(c, n)| Term::L(vec![bytes(c), i(*n)])).collect())
}
fn in_runs(flat: &Term) -> Term {
    Term::L(flat.list().iter().map(|t| match t.list() {
        [Term::S(k), b] if k == "s" || k == "k" => Term::L(vec![s(if k == "s" { "sr" } else { "kr" }), char_runs(&b.as_bytes())]),
        _ => t.clone(),
    }).collect())
}

const LENGTHS: &[usize] = &[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 98304, 100_003, 131_071, 131_072, 131_073];

type Pieces = Vec<(Vec<u8>, usize)>;

fn length(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.below(40) as usize,
        1 => 1 + r.below(3000) as usize,
        _ => *r.pick(LENGTHS),
    }
}

/// The inside of a string.
fn string_pieces(r: &mut Rng, bad: bool, v: &mut Pieces) {
    let unit: &[&str] = &["a", "z", " ", "é", "\u{2028}", "😀", "\\n", "\\\\", "\\\"", "\\/", "\\u0041", "\\u00e9", "\\u0000", "\\ud83d\\ude00", "\u{7f}", "\\uFFFF"];
    let wrong: &[&str] = &["\u{0}", "\u{1f}", "\n", "\t", "\\x", "\\u12g4", "\\ud83d", "\\udc00", "\\ud83d\\n", "\\ud83dx", "\\ud83d\\u0041", "\\"];
    let n = 1 + r.below(4);
    let at = r.below(n + 1);
    for k in 0..=n {
        if bad && k == at {
            v.push((r.pick(wrong).as_bytes().to_vec(), 1));
        }
        if k < n {
            // mostly plain characters
            let u = if r.below(3) > 0 { r.pick(&unit[..6]) } else { r.pick(unit) };
            v.push((u.as_bytes().to_vec(), length(r)));
        }
    }
}

fn digit_run(r: &mut Rng, v: &mut Pieces) -> usize {
    let n = length(r);
    let d = *r.pick(b"0000123456789999");
    v.push((vec![d], n));
    n
}

/// A number with long parts whose value is nevertheless often in range.
fn number_pieces(r: &mut Rng, bad: bool, v: &mut Pieces) {
    let one = |b: &[u8]| (b.to_vec(), 1);
    if r.below(3) == 0 {
        v.push(one(b"-"));
    }
    // the power of ten of the leading digit
    let mut pow: i64 = 0;
    let mut lead = false;
    if r.below(2) == 0 {
        v.push(one(b"0"));
        if bad && r.below(2) == 0 {
            digit_run(r, v);
        }
    } else {
        v.push((vec![*r.pick(b"123456789")], 1));
        lead = true;
        for _ in 0..r.below(3) {
            pow += digit_run(r, v) as i64;
        }
    }
    if !lead || r.below(2) == 0 {
        v.push(one(b"."));
        if bad && r.below(3) == 0 {
            v.push(one(b"e5"));
        }
        let mut zeros = 0;
        if r.below(3) > 0 {
            zeros = length(r);
            v.push((b"0".to_vec(), zeros));
        }
        v.push((vec![*r.pick(b"123456789")], 1));
        for _ in 0..r.below(3) {
            digit_run(r, v);
        }
        if !lead {
            pow = -(zeros as i64) - 1;
        }
    }
    if r.below(5) > 0 {
        let target = match r.below(6) {
            0 => r.below(12) as i64 - 400,
            1 => r.below(45) as i64 - 340,
            2 => 300 + r.below(14) as i64,
            3 => r.below(600) as i64 - 300,
            _ => r.below(44) as i64 - 22,
        };
        let e = target - pow;
        v.push((vec![*r.pick(b"eE")], 1));
        if e < 0 {
            v.push(one(b"-"));
        } else if r.below(3) == 0 {
            v.push(one(b"+"));
        }
        if r.below(4) == 0 {
            v.push((b"0".to_vec(), length(r)));
        }
        if !(bad && r.below(2) == 0) {
            v.push((e.abs().to_string().into_bytes(), 1));
        }
    }
}

/// Texts of a few long runs.
fn runs() {
    let outp = arg("out").unwrap();
    init(&outp, 60);
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let mut r = Rng::new(num("seed", 1) ^ 0x5215);
    let kind = arg("kind").unwrap();
    let ignored = arg("into").as_deref() == Some("ignored");
    let budget = num("bytes", 20_000_000) as usize;
    let mut size = 0;
    for k in 0..num("n", 300) as usize {
        if size > budget {
            break;
        }
        let one = |b: &str| (b.as_bytes().to_vec(), 1);
        let mut v: Pieces = vec![];
        let bad = k % 6 == 5;
        let number = kind == "num" || kind == "both" && k % 2 == 0;
        let shape = r.below(6);
        let body = |r: &mut Rng, v: &mut Pieces, bad: bool| {
            if number {
                number_pieces(r, bad, v);
            } else {
                v.push(one("\""));
                string_pieces(r, bad, v);
                if !(bad && r.below(6) == 0) {
                    v.push(one("\""));
                }
            }
        };
        if ignored {
            v.push(one("{\"zz\":"));
        }
        match shape {
            0 | 1 => body(&mut r, &mut v, bad),
            2 => {
                v.push((r.pick(&["[", " ", "\n\t"]).as_bytes().to_vec(), 1 + r.below(3) as usize));
                v.retain(|p| p.0 != b"[");
                v.push(one("["));
                body(&mut r, &mut v, bad);
                v.push((b" ".to_vec(), length(&mut r)));
                v.push(one(",1]"));
            }
            3 => {
                v.push(one("[null,"));
                body(&mut r, &mut v, false);
                v.push(one(","));
                body(&mut r, &mut v, bad);
                v.push(one("]"));
            }
            4 if !number => {
                v.push(one("{"));
                body(&mut r, &mut v, bad);
                v.push(one(":[true],\"~\":"));
                body(&mut r, &mut v, false);
                v.push(one("}"));
            }
            _ => {
                v.push(one("{\"k\":"));
                body(&mut r, &mut v, bad);
                v.push(one(",\"l\":\"m\"}"));
            }
        }
        if ignored {
            v.push(one("}"));
        }
        let text: Vec<u8> = v.iter().flat_map(|(b, n)| b.repeat(*n)).collect();
        size += text.len();
        let text = match String::from_utf8(text) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let runs = Term::L(v.iter().map(|(b, n)| Term::L(vec![bytes(b), i(*n as i64)])).collect());
        let none = || Term::L(vec![]);
        let got = run.case(text.as_bytes(), || if ignored {
            json::from_str::<Skip>(&text).ok().map(|_| none())
        } else {
            json::from_str::<Value>(&text).ok().map(|v| mh::flat::value_term(&v))
        });
        let mut put = |got: Option<Option<Term>>| {
            let (st, flat) = match got {
                None => ("panic", none()),
                Some(None) => ("err", none()),
                Some(Some(f)) => ("ok", in_runs(&f)),
            };
            o.put(&Term::L(vec![runs.clone(), s(st), flat]));
        };
        put(got);
        if !ignored && !number && shape < 2 {
            put(run.case(text.as_bytes(), || json::from_str::<String>(&text).ok().map(|x| Term::L(vec![mh::term::tag("s", vec![bytes(x.as_bytes())])]))));
        }
    }
    println!("records {}", o.n);
    o.done();
}

/// A text as runs of characters and escape sequences.
fn text_runs(b: &[u8]) -> Term {
    let mut v: Vec<(&[u8], i64)> = vec![];
    let mut k = 0;
    while k < b.len() {
        let n = match b[k] { b'\\' if b.get(k + 1) == Some(&b'u') => 6, b'\\' => 2, 0..=0x7f => 1, 0x80..=0xdf => 2, 0xe0..=0xef => 3, _ => 4 }.min(b.len() - k);
        let c = &b[k..k + n];
        match v.last_mut() {
            Some((d, m)) if *d == c => *m += 1,
            _ => v.push((c, 1)),
        }
        k += n;
    }
    Term::L(v.iter().map(|(c, n)| Term::L(vec![bytes(c), i(*n)])).collect())
}

/// Writes of values with long strings.
fn write_runs() {
    let outp = arg("out").unwrap();
    init(&outp, 60);
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let mut r = Rng::new(num("seed", 1) ^ 0x3715);
    let budget = num("bytes", 20_000_000) as usize;
    let mut size = 0;
    let chars: Vec<char> = (0..0x20).filter_map(char::from_u32).chain("\"\\/\u{7f}\u{80}\u{2028}\u{ffff}".chars()).collect();
    let mut string = |r: &mut Rng, size: &mut usize| {
        let mut x = String::new();
        for _ in 0..1 + r.below(5) {
            let c = if r.below(3) > 0 { *r.pick(&['a', 'z', ' ', 'é', '😀']) } else { *r.pick(&chars) };
            let n = length(r);
            x.extend(std::iter::repeat(c).take(n));
        }
        *size += x.len();
        x
    };
    for _ in 0..num("n", 300) as usize {
        if size > budget {
            break;
        }
        let mut st = |r: &mut Rng| Value::String(string(r, &mut size));
        let v = match r.below(6) {
            0..=2 => st(&mut r),
            3 => Value::Array([st(&mut r), Value::Null, st(&mut r)].into_iter().collect()),
            4 => Value::Object([("k".to_string(), st(&mut r)), ("l".to_string(), Value::Bool(true))].into_iter().collect()),
            _ => {
                let k = match st(&mut r) {
                    Value::String(k) => k,
                    _ => unreachable!(),
                };
                Value::Object([(k, st(&mut r))].into_iter().collect())
            }
        };
        let flat = mh::flat::value_term(&v);
        let got = run.case(b"a long string", || match &v {
            Value::String(x) if x.len() % 2 == 0 => json::to_string(x.as_str()),
            _ => json::to_string(&v),
        });
        let (st, text) = match &got {
            None => ("panic", Term::L(vec![])),
            Some(t) => ("ok", text_runs(t.as_bytes())),
        };
        o.put(&Term::L(vec![in_runs(&flat), s(st), text]));
    }
    println!("records {}", o.n);
    o.done();
}

fn main() {
    let mode = std::env::args().nth(1).unwrap();
    if mode == "words" {
        return words();
    }
    if mode == "wide" {
        return wide();
    }
    if mode == "wruns" {
        return write_runs();
    }
    if mode == "runs" {
        return runs();
    }
    if mode == "context" {
        return context();
    }
    let prop = arg("prop").unwrap();
    let outp = arg("out").unwrap();
    init(&outp, 20);
    let run = Runner::new(&outp, 0);
    let mut o = Out::new(&outp);
    let mut seen = std::collections::HashSet::new();
    if let Some(f) = arg("cases") {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            let b = parse(l).as_bytes();
            if let Ok(x) = String::from_utf8(b) {
                if seen.insert(x.clone()) {
                    o.put(&record(&run, &x));
                }
            }
        }
    }
    if arg("only-cases").is_none() {
        for t in fixed(&prop) {
            if seen.insert(t.clone()) {
                o.put(&record(&run, &t));
            }
        }
        let mut r = Rng::new(num("seed", 1) ^ 0x7e47);
        let n = num("n", 1000) as usize;
        let mut k = 0;
        let mut size = 0;
        let cap = num("bytes", 6_000_000) as usize;
        while k < n && size < cap {
            let t = input(&prop, &mut r, k);
            k += 1;
            if seen.insert(t.clone()) {
                size += t.len();
                o.put(&record(&run, &t));
            }
        }
    }
    println!("records {}", o.n);
    o.done();
}
