//! Texts to be read, directed by the property they bear on.
use crate::gen;
use crate::rng::Rng;

pub fn input(prop: &str, r: &mut Rng, k: usize) -> String {
    let mut o = String::new();
    match prop {
        "P01" => match r.below(20) {
            0..=4 => gen::random_doc(r),
            5..=9 => {
                let d = gen::random_doc(r);
                gen::mutate(r, &d)
            }
            10 => {
                // a proper prefix
                let d = gen::random_doc(r);
                let n = d.chars().count();
                d.chars().take(r.below(n.max(1))).collect()
            }
            11 => {
                let d = gen::random_doc(r);
                format!("{}{}", d, r.pick(&["]", "}", ",", "\"", "0", " 0", "null", " null", "\0", "x", "\u{feff}", "\u{a0}", ":", "[]", "{}", "\n\n", " ", "//", "-", ".", "1 "]))
            }
            12 => {
                let d = gen::random_doc(r);
                format!("{}{}", r.pick(&["]", "}", ",", "\u{feff}", "\u{a0}", "\0", ":", "/**/", "\u{b}", "\u{c}", " ", "\t\r\n", "+", "0", "-", "\u{85}", "\u{2003}"]), d)
            }
            13 => {
                gen::bad_number(r, &mut o);
                if r.chance(1, 2) {
                    format!("[{}]", o)
                } else {
                    o
                }
            }
            14 => {
                gen::bad_string_lit(r, &mut o);
                match r.below(3) {
                    0 => format!("{{{}:1}}", o),
                    1 => format!("[1,{}]", o),
                    _ => o,
                }
            }
            15 => {
                gen::number(r, &mut o);
                if r.chance(1, 3) {
                    format!("{{\"a\":{}}}", o)
                } else {
                    o
                }
            }
            16 => {
                if k % 6 == 0 {
                    let d = *r.pick(&[20, 60, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025]);
                    let t = gen::deep_doc(r, d);
                    match r.below(4) {
                        0 => t,
                        1 => t[..r.below(t.len())].to_string(),
                        _ => gen::mutate(r, &t),
                    }
                } else {
                    let d = r.range(2, 16);
                    let t = gen::deep_doc(r, d);
                    if r.chance(1, 2) {
                        gen::mutate(r, &t)
                    } else {
                        t
                    }
                }
            }
            17 => {
                gen::string_lit(r, &mut o);
                gen::mutate(r, &o)
            }
            18 => {
                let w = *r.pick(&["nul", "nulll", "nan", "NaN", "True", "tru", "truee", "fals", "falsey", "n", "t", "f", "null", "true", "false", "nu\0l", "undefined", "Infinity", "-Infinity", "NULL", "n ull", "tr\nue", "nill", "trve", "fa1se", "fales"]);
                match r.below(5) {
                    0 => format!("[{}]", w),
                    1 => format!("[1,{},2]", w),
                    2 => format!("{{\"a\":{}}}", w),
                    3 => format!("{{{}:1}}", w),
                    _ => w.to_string(),
                }
            }
            _ => {
                let t = *r.pick(&["[1,]", "[,1]", "[,]", "{,}", "{\"a\":1,}", "{,\"a\":1}", "[1 2]", "{\"a\" 1}", "{\"a\":}", "{\"a\"}", "{1:2}", "[1:2]", "{\"a\":1 \"b\":2}", "[1,,2]", "{\"a\":1,,\"b\":2}", "{\"a\"::1}", "[}", "{]", "[1}", "{\"a\":1]", "[[1}", "", " ", "\"a\" \"b\"", "[]]", "{}}", "{\"a\":1}}", "[\"a\":1]", "{[]:1}", "{null:1}", "{\"a\":1,\"b\"}", "[1];", "{'a':1}", "[\n]", "{ }", "{\"a\":1,2}", "[{]}", "{\"a\":[}"]);
                match r.below(4) {
                    0 => format!("[{}]", t),
                    1 => format!("{{\"k\":{}}}", t),
                    2 => format!(" {} ", t),
                    _ => t.to_string(),
                }
            }
        },
        "P02" => match r.below(40) {
            0..=22 => {
                let mut b = *r.pick(&[5, 15, 40, 80]);
                gen::tree_doc(r, &mut o, 8, &mut b);
                o
            }
            23..=33 => gen::random_doc(r),
            34 => {
                let d = *r.pick(&[30, 64, 100, 127, 128, 129, 200, 255, 256, 257, 400]);
                gen::deep_doc(r, d)
            }
            35 if k % 4 == 1 => {
                let (n, style) = (r.range(5, 90), r.below(8));
                let d = crate::docs::Docs { env: &[], bad: 0, heavy: false };
                d.shuffled(&crate::term::tag("value", vec![]), r, n, style).unwrap()
            }
            35 if k % 4 == 0 => {
                let n = *r.pick(&[50, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600]);
                gen::wide_doc(r, n)
            }
            36 => {
                let l = gen::long_string(r);
                format!("{{\"a\":{},\"b\":[1,{}]}}", l, "\"x\"")
            }
            37 => {
                // one name over and over
                let n = r.range(2, 9);
                let v: Vec<String> = (0..n)
                    .map(|_| {
                        let mut t = String::new();
                        gen::tree_doc(r, &mut t, 2, &mut 6);
                        format!("{}:{}", r.pick(&["\"a\"", "\"\\u0061\"", "\"b\"", "\"\\u0062\""]), t)
                    })
                    .collect();
                format!("{{{}}}", v.join(","))
            }
            _ => {
                let d = r.range(3, 24);
                gen::deep_doc(r, d)
            }
        },
        "P03" => match r.below(12) {
            0..=3 => {
                gen::string_lit(r, &mut o);
                o
            }
            4 | 5 => {
                gen::bad_string_lit(r, &mut o);
                o
            }
            6 | 7 => {
                // names and values, one after the other, through the same buffer
                let n = r.range(1, 5);
                let mut parts = vec![];
                for _ in 0..n {
                    let (mut a, mut b) = (String::new(), String::new());
                    gen::string_lit(r, &mut a);
                    if r.chance(1, 12) {
                        gen::bad_string_lit(r, &mut b);
                    } else {
                        gen::string_lit(r, &mut b);
                    }
                    parts.push(format!("{}:{}", a, b));
                }
                format!("{{{}}}", parts.join(","))
            }
            8 => {
                let n = r.range(1, 6);
                let mut parts = vec![];
                for _ in 0..n {
                    let mut b = String::new();
                    gen::string_lit(r, &mut b);
                    parts.push(b);
                }
                format!("[{}]", parts.join(","))
            }
            9 => {
                gen::string_lit(r, &mut o);
                gen::mutate(r, &o)
            }
            10 if k % 12 == 0 => gen::long_string(r),
            _ => {
                gen::string_lit(r, &mut o);
                format!("{{{}:1}}", o)
            }
        },
        "P04" => {
            let mut t = String::new();
            if r.chance(2, 5) {
                t.push('-');
            }
            t.push_str(&gen::int_digits(r));
            match r.below(8) {
                0 => format!("[{}]", t),
                1 => format!("{{\"a\":{}}}", t),
                2 => format!(" {}\n", t),
                3 => format!("[{},{}]", t, gen::int_digits(r)),
                _ => t,
            }
        }
        "P05" => {
            let mut t = String::new();
            if r.chance(1, 3) {
                t.push('-');
            }
            if r.chance(1, 8) {
                t.push_str(&"123456789012345678901234567890"[r.below(10)..].repeat(r.range(1, 12)));
            } else if r.chance(1, 6) {
                // at most 15 digits, small exponent: must be correctly rounded
                let d = r.range(1, 15);
                let m: String = (0..d).map(|k| (b'0' + if k == 0 { r.range(1, 9) } else { r.below(10) } as u8) as char).collect();
                let p = r.range(0, d);
                if p == 0 {
                    t.push_str(&format!("0.{}", m));
                } else if p == d {
                    t.push_str(&format!("{}e{}", m, r.range(0, 44) as i64 - 22));
                } else {
                    t.push_str(&format!("{}.{}", &m[..p], &m[p..]));
                    if r.chance(1, 2) {
                        t.push_str(&format!("e{}", r.range(0, 40) as i64 - 20));
                    }
                }
            } else if r.chance(1, 10) {
                // the decimal expansions of actual doubles
                let f = f64::from_bits(r.next() & !(1 << 63));
                if f.is_finite() {
                    if f > 1e-20 && f < 1e20 && r.chance(1, 2) {
                        t.push_str(&format!("{:.20}", f));
                    } else {
                        t.push_str(&format!("{:e}", f));
                    }
                } else {
                    t.push_str("1.7976931348623157e308");
                }
            } else {
                gen::float_body(r, &mut t);
            }
            match r.below(6) {
                0 => format!("[{}]", t),
                1 => format!("[1.5,{},2e0]", t),
                _ => t,
            }
        }
        _ => panic!("unknown property"),
    }
}

/// A character that needs care at every offset of shorter and longer runs of
/// plain bytes.
pub fn placed() -> Vec<String> {
    let mut v = vec![];
    let sp: Vec<char> = (0..0x20).filter_map(char::from_u32).chain(['"', '\\', '/', ' ', '!', '[', ']', '\u{7f}', '\u{80}', 'é', '\u{2028}', '\u{d7ff}', '\u{ffff}', '😀']).collect();
    for (n, c) in sp.iter().enumerate() {
        for pre in (0..=17).chain([24, 31, 32, 33, 63, 64, 65]) {
            for post in [0usize, 7, 16, 70] {
                // all offsets for the important ones, a sample for the others
                if "\"\\\0\n\u{1f}é".contains(*c) || (n + pre + post) % 5 == 0 || pre <= 8 && post == 16 {
                    v.push(format!("{}{}{}", "y".repeat(pre), c, "z".repeat(post)));
                }
            }
        }
    }
    v
}

/// Runs of digits with one character that is none at every place.
pub fn not_quite_digits() -> Vec<String> {
    let mut v = vec![];
    let near: Vec<char> = (0x20u8..0x7f).map(|b| b as char).filter(|c| !c.is_ascii_digit() && *c != '\u{5c}').collect();
    for n in [2usize, 4, 7, 8, 9, 10, 15, 16, 17, 19, 20, 21, 24] {
        for at in 0..n {
            for (k, c) in near.iter().enumerate() {
                // those next to the digits at every place, the others at some
                if !"/:;<=>?.eE+-*, ".contains(*c) && (k + at + n) % 9 != 0 {
                    continue;
                }
                let d: String = (0..n).map(|j| if j == at { *c } else { (b'1' + ((j * 7 + n) % 9) as u8) as char }).collect();
                match (k + at) % 6 {
                    0 => v.push(d.clone()),
                    1 => v.push(format!("[{}]", d)),
                    2 => v.push(format!("0.{}", d)),
                    3 => v.push(format!("-{} ", d)),
                    4 => v.push(format!("{{\"a\":7{},\"b\":1}}", d)),
                    _ => v.push(format!("[2.5{}]", d)),
                }
                if "/:;<=>?".contains(*c) {
                    v.push(format!("[{}]", d));
                    v.push(format!("[1.{},2]", d));
                    if n < 5 {
                        v.push(format!("1e{}", d));
                    }
                }
            }
        }
    }
    v
}

/// Texts one edit away from `t`: every character replaced by every character,
/// left out, doubled, exchanged with the next, and others put before it.
pub fn one_edit(t: &str, v: &mut Vec<String>) {
    let cs: Vec<char> = t.chars().collect();
    let with = |a: &[char], x: &[char], b: &[char]| a.iter().chain(x).chain(b).collect::<String>();
    for k in 0..=cs.len() {
        let (a, b) = cs.split_at(k);
        for x in ['0', '9', ' ', '"', '\\', ',', '-', '.', 'e', '[', '}', '\0', 'u', 'é'] {
            v.push(with(a, &[x], b));
        }
        if b.is_empty() {
            continue;
        }
        for x in (0u32..128).filter_map(char::from_u32).chain(['\u{80}', 'é', '\u{feff}', '٣', '\u{ff11}', '😀']) {
            if x != b[0] {
                v.push(with(a, &[x], &b[1..]));
            }
        }
        v.push(with(a, &[], &b[1..]));
        v.push(with(a, &[b[0]], b));
        v.push(a.iter().collect());
        v.push(b.iter().collect());
        if b.len() > 1 {
            v.push(with(a, &[b[1], b[0]], &b[2..]));
        }
    }
}

pub const STRINGS: &[&str] = &["\"\\ud83d\\ude00\"", "\"a\\uDBFF\\uDFFFb\"", "\"\\u00e9\\n\\\"\\\\\"", "\"\\/\\b\\f\\r\\tz\"", "\"é😀\"", "{\"\\u0061\":\"\\u0000\"}"];
pub const NUMBERS: &[&str] = &["-2.5e+10", "0.0E-05", "[10,-0,1e5]", "12345678901234567890", "-9223372036854775808", "18446744073709551616.5e-3", "184467440737095516155", "{\"a\":1.25}"];
pub const SHAPES: &[&str] = &["[true,false,null]", "{\"a\":1,\"b\":[{}]}", " [ 1 , {\"k\" : \"v\"} ]\r\n", "\n\t{\n\"x\":\t\"\"\n}", "[[],{},[[1],2]]"];

/// Inputs that every run includes.
pub fn fixed(prop: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match prop {
        "P01" => {
            for b in 0u32..=0x17f {
                if let Some(c) = char::from_u32(b) {
                    for t in [format!("{}", c), format!("[{}]", c), format!("[1{}]", c), format!("[1{}2]", c), format!("{{\"a\"{}1}}", c), format!("1{}", c), format!("{}1", c), format!("-{}", c), format!("1.{}", c), format!("1e{}", c), format!("\"\\{}\"", c), format!("\"\\u00{}0\"", c), format!("\"{}\"", c), format!("{{{}\"a\":1}}", c), format!("{{\"a\":1{}}}", c), format!("0{}", c), format!("n{}ll", c), format!("[{}", c), format!("[]{}", c), format!("{{\"a\":1,{}\"b\":2}}", c), format!("\"\\ud83d{}\\ude00\"", c), format!("\"\\ud83d\\{}\"", c), format!("1.5{}", c), format!("1e5{}", c)] {
                        v.push(t);
                    }
                }
            }
            v.extend(not_quite_digits());
            for t in STRINGS.iter().chain(NUMBERS).chain(SHAPES) {
                one_edit(t, &mut v);
            }
            for d in [1000usize, 5000, 20000] {
                v.push("[".repeat(d) + &"]".repeat(d));
                v.push("{\"a\":".repeat(d) + "1" + &"}".repeat(d));
                v.push("[{\"a\":".repeat(d / 2) + &"}]".repeat(d / 2));
                v.push("[".repeat(d));
                v.push("[".repeat(d) + &"]".repeat(d - 1));
                v.push("[".repeat(d) + &"]".repeat(d + 1));
            }
            v.push(" ".repeat(40000) + "1" + &"\n".repeat(40000));
            v.push(format!("\"{}\"", "x".repeat(70000)));
            v.push(format!("\"{}", "x".repeat(70000)));
            v.push("1".repeat(3000));
            v.push(format!("0.{}1", "0".repeat(3000)));
            v.push(format!("0.{}1e3001", "0".repeat(3000)));
            v.push(format!("1{}e-3000", "0".repeat(3000)));
            v.push(format!("1e{}5", "0".repeat(3000)));
            v.push(format!("1e{}", "9".repeat(3000)));
            v.push(format!("0e{}", "9".repeat(3000)));
            v.push(format!("1e-{}", "9".repeat(3000)));
        }
        "P02" => {
            SHAPES.iter().for_each(|t| one_edit(t, &mut v));
            for n in [300usize, 1000, 2000] {
                v.push(format!("[{}]", (0..n).map(|k| k.to_string()).collect::<Vec<_>>().join(",")));
                v.push(format!("{{{}}}", (0..n).map(|k| format!("\"{}\":{}", (k * 7919) % n, k)).collect::<Vec<_>>().join(",")));
            }
            v.push(format!("[{}]", vec!["1"; 33000].join(",")));
            // names that return, with other values, in all orders
            let d = crate::docs::Docs { env: &[], bad: 0, heavy: false };
            let t = crate::term::tag("value", vec![]);
            let mut r = Rng::new(7);
            for n in [6usize, 17, 33, 40, 65, 70, 130, 140, 257, 300, 1030] {
                for style in 0..8 {
                    v.extend(d.shuffled(&t, &mut r, n, style));
                }
            }
            v.push(format!("[{}]", vec!["[]"; 22000].join(",")));
            v.push(format!("{{{}}}", (0..8000).map(|k| format!("\"{}\":null", (k * 7919) % 7001)).collect::<Vec<_>>().join(",")));
            for d in [500usize, 1000, 3000] {
                v.push("[".repeat(d) + &"]".repeat(d));
                v.push("{\"a\":".repeat(d) + "1" + &"}".repeat(d));
                v.push("[{\"a\":".repeat(d / 2) + "[]" + &",\"b\":2},3]".repeat(d / 2));
                v.push("[1,".repeat(d / 2) + "{}" + &",2]".repeat(d / 2));
            }
        }
        "P03" => {
            STRINGS.iter().for_each(|t| one_edit(t, &mut v));
            // every code unit; every character, unescaped
            for u in 0u32..0x10000 {
                // keep the trace small: one string per 16 units where all are plain
                if u % 16 == 0 && !(0xd800..0xe000).contains(&u) {
                    let mut o = String::from("\"");
                    for k in 0..16 {
                        o.push_str(&if (u / 16) % 2 == 0 { format!("\\u{:04x}", u + k) } else { format!("\\u{:04X}", u + k) });
                    }
                    o.push('"');
                    v.push(o);
                }
            }
            for u in (0xd800u32..0xe000).step_by(3).chain([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000]) {
                v.push(format!("\"\\u{:04x}\"", u));
                v.push(format!("\"\\u{:04x}\\udc00\"", u));
                v.push(format!("\"\\ud800\\u{:04x}\"", u));
                v.push(format!("\"a\\u{:04x}\\u{:04x}b\"", u, 0xdfff - (u - 0xd700) % 0x400));
            }
            let mut all: Vec<char> = (0x20..0x110000).filter_map(char::from_u32).filter(|c| *c != '"' && *c != '\\').collect();
            // all of the basic plane, every 61st character beyond, and the boundaries
            let keep: Vec<char> = all.drain(..).filter(|c| (*c as u32) < 0x10000 || (*c as u32) % 61 == 0 || (*c as u32) & 0xffff >= 0xfffd || (*c as u32) & 0xffff <= 1).collect();
            for ch in keep.chunks(200) {
                v.push(format!("\"{}\"", ch.iter().collect::<String>()));
            }
            for b in 0u32..=0x100 {
                let c = char::from_u32(b).unwrap();
                v.push(format!("\"\\{}\"", c));
                v.push(format!("\"{}\"", c));
                v.push(format!("\"ab{}cd\"", c));
                v.push(format!("{{\"{}\":\"\\{}\"}}", c, c));
                for k in 0..4 {
                    let mut h: Vec<char> = "0000".chars().collect();
                    h[k] = c;
                    v.push(format!("\"\\u{}\"", h.iter().collect::<String>()));
                    let mut h: Vec<char> = "dc00".chars().collect();
                    h[k] = c;
                    v.push(format!("\"\\ud800\\u{}\"", h.iter().collect::<String>()));
                }
            }
            for (k, t) in placed().into_iter().enumerate() {
                v.push(format!("\"{}\"", t));
                let esc = t.replace('\\', "\\\\").replace('"', "\\\"").replace('\0', "\\u0000").replace('\n', "\\n").replace('\u{1f}', "\\u001F");
                if k % 3 == 0 {
                    v.push(format!("{{\"{}\":[\"{}\"]}}", t, esc));
                } else {
                    v.push(format!("{{\"{}\":1}}", esc));
                }
            }
            v.push(format!("\"{}\"", "\\n".repeat(5000)));
            v.push(format!("\"{}\"", "\\ud83d\\ude00".repeat(3000)));
            v.push(format!("\"{}\"", "é".repeat(20000)));
            v.push(format!("\"\\t{}\\t\"", "x".repeat(66000)));
        }
        "P04" => {
            v.extend(not_quite_digits().into_iter().step_by(3));
            NUMBERS.iter().for_each(|t| one_edit(t, &mut v));
            for base in [0u128, 127, 128, 255, 256, 32767, 65535, 1 << 31, 1 << 32, 1 << 53, 1 << 62, 1 << 63, 1 << 64, 1844674407370955161, 18446744073709551610, 184467440737095516150, 1 << 65, 1 << 66, 100000000000000000000, 99999999999999999999] {
                for d in -25i128..=25 {
                    let n = base as i128 + d;
                    if n >= 0 {
                        v.push(n.to_string());
                        v.push(format!("-{}", n));
                    }
                }
            }
            for k in 0..40 {
                for d in ["1", "9", "18", "92", "184", "5"] {
                    v.push(format!("{}{}", d, "0".repeat(k)));
                    v.push(format!("-{}{}", d, "0".repeat(k)));
                    v.push(format!("{}{}", d, "9".repeat(k)));
                }
            }
        }
        "P05" => {
            NUMBERS.iter().for_each(|t| one_edit(t, &mut v));
            for e in -345i32..=312 {
                for m in ["1", "9.999999999999999", "4.9406564584124654", "2.2250738585072014", "1.7976931348623157", "12345678901234567890", "0.1", "100000000000000000000000"] {
                    v.push(format!("{}e{}", m, e));
                    if e % 7 == 0 {
                        v.push(format!("-{}E{}", m, e));
                    }
                }
            }
            for z in [1usize, 5, 20, 22, 23, 100, 300, 307, 308, 309, 320, 324, 330, 400, 700] {
                v.push(format!("0.{}1", "0".repeat(z)));
                v.push(format!("0.{}123456789012345678901", "0".repeat(z)));
                v.push(format!("1{}.0", "0".repeat(z)));
                v.push(format!("1{}", "0".repeat(z)));
                v.push(format!("0.{}1e{}", "0".repeat(z), z));
                v.push(format!("1{}e-{}", "0".repeat(z), z));
                v.push(format!("1{}.{}e-{}", "0".repeat(z), "0".repeat(z), z));
                v.push(format!("123456789{}e-{}", "1234567890".repeat(z / 10 + 1), z));
                v.push(format!("0.{}e5", "0".repeat(z)));
                v.push(format!("-0.{}", "0".repeat(z)));
            }
            for t in ["-0.0", "0.0", "-0e0", "0e5", "-0E-5", "0e99999999999", "-0e99999999999", "1e-99999999999", "-1e-99999999999", "1e99999999999", "1e2147483647", "1e2147483648", "1e-2147483648", "1e-2147483647", "0.1e2147483647", "0.1e2147483648", "10e-2147483648", "0e2147483648", "0e-2147483648", "-0.0e400", "0e309", "0.0e-400",
                "1.7976931348623157e308", "1.7976931348623158e308", "1.797693134862315e308", "1.8e308", "17976931348623157e292", "0.00017976931348623157e312", "179769313486231570000e288", "2e308", "1e309", "1e308", "9.9e307", "5e-324", "4e-324", "3e-324", "2e-324", "1e-400", "2.2250738585072011e-308", "9007199254740993.0", "0.3", "0.1", "123456789012345e22", "1e22", "1e23", "1e-22", "1e-23", "8.5e-17"] {
                v.push(t.to_string());
                v.push(format!("[{}, 1]", t));
            }
        }
        _ => {}
    }
    v
}
