//! Generators of JSON text.  They only propose inputs; what an input means is
//! decided by the specification.
use crate::rng::Rng;

pub fn ws(r: &mut Rng, o: &mut String, level: usize) {
    if level == 0 || !r.chance(level, 10) {
        return;
    }
    for _ in 0..r.range(1, 3) {
        o.push(*r.pick(&[' ', '\n', '\t', '\r']));
    }
}

pub const CHARS: &[u32] = &[
    0x20, 0x21, 0x23, 0x2f, 0x30, 0x41, 0x5b, 0x5d, 0x61, 0x7a, 0x7b, 0x7d, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xad, 0xff, 0x100, 0x3bb, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0x20ac, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff,
    0x10000, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff,
];

pub fn any_char(r: &mut Rng) -> char {
    match r.below(6) {
        0..=2 => char::from_u32(r.range(0x20, 0x7e) as u32).unwrap(),
        3 => char::from_u32(*r.pick(CHARS)).unwrap(),
        4 => char::from_u32(r.range(0xa0, 0x7ff) as u32).unwrap(),
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                if c as u32 >= 0x20 {
                    return c;
                }
            }
        },
    }
}

fn hex4(r: &mut Rng, v: u32, o: &mut String) {
    for k in (0..4).rev() {
        let d = (v >> (4 * k)) & 15;
        let c = char::from_digit(d, 16).unwrap();
        o.push(if r.chance(1, 2) { c.to_ascii_uppercase() } else { c });
    }
}

/// One string element: a raw character or an escape.
fn str_piece(r: &mut Rng, o: &mut String) {
    match r.below(8) {
        0..=3 => loop {
            let c = any_char(r);
            if c != '"' && c != '\\' {
                o.push(c);
                break;
            }
        },
        4 => {
            o.push('\\');
            o.push(*r.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
        }
        5 => {
            o.push_str("\\u");
            let v = match r.below(5) {
                0 => r.below(0x80) as u32,
                1 => *r.pick(&[0u32, 0x1f, 0x22, 0x5c, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0xfffe, 0xfeff]),
                2 => r.below(0xd800) as u32,
                3 => r.range(0xe000, 0xffff) as u32,
                _ => r.below(0x800) as u32,
            };
            hex4(r, v, o);
        }
        6 => {
            let (h, l) = match r.below(3) {
                0 => (*r.pick(&[0xd800u32, 0xdbff, 0xd83d]), *r.pick(&[0xdc00u32, 0xdfff, 0xde00])),
                _ => (r.range(0xd800, 0xdbff) as u32, r.range(0xdc00, 0xdfff) as u32),
            };
            o.push_str("\\u");
            hex4(r, h, o);
            o.push_str("\\u");
            hex4(r, l, o);
        }
        _ => o.push(*r.pick(&['a', ' ', '[', '{', ',', ':', '}', ']'])),
    }
}

pub fn string_lit(r: &mut Rng, o: &mut String) {
    o.push('"');
    let n = match r.below(20) {
        0..=2 => 0,
        3..=8 => 1,
        9..=17 => r.range(2, 8),
        18 => r.range(8, 40),
        _ => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128]),
    };
    if r.chance(1, 6) {
        // plain text, escapes only at chosen places
        let at = r.below(n + 1);
        for k in 0..n {
            if k == at && r.chance(1, 2) {
                str_piece(r, o);
            } else {
                o.push((b'a' + (k % 26) as u8) as char);
            }
        }
    } else {
        for _ in 0..n {
            str_piece(r, o);
        }
    }
    o.push('"');
}

/// A string literal that may be malformed.
pub fn bad_string_lit(r: &mut Rng, o: &mut String) {
    let mut t = String::new();
    string_lit(r, &mut t);
    let body: Vec<char> = t[1..t.len() - 1].chars().collect();
    let bad: String = match r.below(12) {
        0 => char::from_u32(r.below(32) as u32).unwrap().to_string(),
        1 => format!("\\{}", any_char(r)),
        2 => format!("\\u{:04x}", r.range(0xd800, 0xdfff)),
        3 => format!("\\ud8{:02x}\\u{:04x}", r.below(256), r.below(0x10000)),
        4 => format!("\\ud83d{}", *r.pick(&["", "\\", "\\u", "\\n", "\\ude0", "ude00", "\\\\ude00", "x", " \\ude00"])),
        5 => format!("\\u{}", (0..r.below(5)).map(|_| *r.pick(&['0', '9', 'a', 'f', 'A', 'F', 'g', 'G', '/', ':', '@', '`', 'x', '-', '+', ' '])).collect::<String>()),
        6 => "\\u{41}".to_string(),
        7 => "\\x41".to_string(),
        8 => "\\'".to_string(),
        9 => "\"".to_string(),
        10 => "\\".to_string(),
        _ => format!("\\u{:03x}g", r.below(4096)),
    };
    let at = r.below(body.len() + 1);
    o.push('"');
    // never split an escape of the body: cut at a position that is not inside one
    let (mut k, mut safe) = (0, vec![0]);
    while k < body.len() {
        if body[k] == '\\' {
            k += if body[k + 1] == 'u' { 6 } else { 2 };
        } else {
            k += 1;
        }
        safe.push(k);
    }
    let at = if r.chance(4, 5) { *safe.iter().filter(|x| **x <= at).last().unwrap() } else { at };
    o.extend(&body[..at]);
    o.push_str(&bad);
    o.extend(&body[at..]);
    if !r.chance(1, 30) {
        o.push('"');
    }
}

const BOUNDS: &[u128] = &[
    0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 4294967297, 9007199254740991, 9007199254740992, 9007199254740993,
    9223372036854775806, 9223372036854775807, 9223372036854775808, 9223372036854775809, 9999999999999999999, 10000000000000000000, 18446744073709551609, 18446744073709551610, 18446744073709551614, 18446744073709551615, 18446744073709551616,
    18446744073709551617, 18446744073709551619, 18446744073709551620, 18446744073709551625, 184467440737095516150, 184467440737095516159, 184467440737095516160, 340282366920938463463374607431768211455,
];

pub fn int_digits(r: &mut Rng) -> String {
    match r.below(10) {
        0 => r.below(10).to_string(),
        1 | 2 => r.pick(BOUNDS).to_string(),
        3 => {
            let b = *r.pick(BOUNDS) as i128;
            (b.saturating_add(r.range(0, 20) as i128 - 10)).max(0).to_string()
        }
        4 => (1u128 << r.below(70)).wrapping_add(r.below(5) as u128).wrapping_sub(2).min(1 << 80).to_string(),
        5 => r.next().to_string(),
        6 => (r.next() >> r.below(64)).to_string(),
        7 => {
            // 19 to 22 digits
            let n = r.range(18, 22);
            let mut s = String::new();
            for k in 0..n {
                s.push((b'0' + if k == 0 { r.range(1, 9) } else { r.below(10) } as u8) as char);
            }
            s
        }
        8 => format!("{}{}", r.range(1, 9), r.pick(&["0", "9"]).repeat(r.range(1, 25))),
        _ => r.below(100000).to_string(),
    }
}

pub fn number(r: &mut Rng, o: &mut String) {
    if r.chance(1, 3) {
        o.push('-');
    }
    if r.chance(1, 2) {
        o.push_str(&int_digits(r));
        return;
    }
    float_body(r, o);
}

pub fn float_body(r: &mut Rng, o: &mut String) {
    let mut int = int_digits(r);
    if r.chance(1, 40) {
        int = format!("{}{}", r.range(1, 9), r.pick(&["0", "5", "9"]).repeat(*r.pick(&[30, 100, 307, 308, 309, 310, 400])));
    }
    o.push_str(&int);
    let mut any = false;
    if r.chance(3, 5) {
        any = true;
        o.push('.');
        match r.below(6) {
            0 => o.push('0'),
            1 => {
                for _ in 0..r.range(1, 6) {
                    o.push((b'0' + r.below(10) as u8) as char);
                }
            }
            2 => {
                for _ in 0..r.range(10, 30) {
                    o.push((b'0' + r.below(10) as u8) as char);
                }
            }
            3 => {
                o.push_str(&"0".repeat(r.range(1, 25)));
                o.push_str(&int_digits(r));
            }
            4 => o.push_str(*r.pick(&["5", "25", "125", "1", "9", "99999999999999999999", "000000000000000000000"])),
            _ => {
                if r.chance(1, 10) {
                    o.push_str(&"0".repeat(*r.pick(&[290, 307, 308, 323, 324, 325, 340, 616, 620])));
                    o.push_str(&int_digits(r));
                } else {
                    o.push_str(&int_digits(r));
                }
            }
        }
    }
    if !any || r.chance(1, 2) {
        o.push(*r.pick(&['e', 'E']));
        o.push_str(*r.pick(&["", "+", "-", "-", ""]));
        let e = match r.below(12) {
            0 => r.below(4),
            1..=4 => r.below(23),
            5 => r.range(280, 312),
            6 => *r.pick(&[22, 23, 290, 291, 292, 293, 294, 300, 307, 308, 309, 310]),
            7 => *r.pick(&[305, 306, 307, 308, 309, 310, 320, 323, 324, 325, 326, 340, 342, 343, 344, 400, 615, 616, 617, 618, 620, 700]),
            8 => r.below(330),
            9 => *r.pick(&[2147483646, 2147483647, 2147483648, 2147483649, 4294967296, 99999999999, 21474836470]),
            _ => r.below(40),
        };
        if r.chance(1, 8) {
            o.push_str(&"0".repeat(r.range(1, 12)));
        }
        o.push_str(&e.to_string());
    }
}

/// A number token that may be malformed.
pub fn bad_number(r: &mut Rng, o: &mut String) {
    let mut t = String::new();
    number(r, &mut t);
    match r.below(8) {
        0 => o.push_str(&format!("0{}", t.trim_start_matches('-'))),
        1 => o.push_str(&format!("-0{}", t.trim_start_matches('-'))),
        2 => o.push_str(&format!("+{}", t)),
        3 => o.push_str(&format!("{}{}", t, *r.pick(&[".", "e", "E", "e+", "e-", ".e1", "-", "+", "_", "f", "e1.5", ".5.5", "e5e5", "\0", "x", "n"]))),
        4 => o.push_str(&format!("{}{}", *r.pick(&["-", ".", "--", "-.", "e", "00", "-00", "0x", "Infinity", "-Infinity", "NaN", "inf"]), t)),
        5 => {
            let k = r.below(t.len());
            o.push_str(&t[..k]);
        }
        6 => {
            let k = r.below(t.len() + 1);
            o.push_str(&t[..k]);
            o.push(*r.pick(&['.', 'e', '-', '+', '0', ' ', 'E', '\0', '\u{a0}', '٣']));
            o.push_str(&t[k..]);
        }
        _ => o.push_str(*r.pick(&["-", "-a", "01", "-01", "1.", "-.5", ".5", "1e", "1e+", "1.e1", "0e", "-0e-", "0.e0", "00", "0 0"])),
    }
}

pub const KEYS: &[&str] = &["a", "b", "c", "", "aa", "ab", "A", "a\\u0062", "\\u0061", "x y", "\\n", "\\\"", "0", "-1", "null", "é", "\\u00e9", "\\ud83d\\ude00", "😀", "a.b", "key", "\\\\", "/", "\\/", "\\u0000"];

pub fn key(r: &mut Rng, o: &mut String) {
    if r.chance(4, 5) {
        o.push('"');
        o.push_str(*r.pick(KEYS));
        o.push('"');
    } else {
        string_lit(r, o);
    }
}

/// A random JSON text of about `budget` nodes.
pub fn doc(r: &mut Rng, o: &mut String, depth: usize, budget: &mut isize, wsl: usize) {
    *budget -= 1;
    let k = if depth == 0 || *budget <= 0 { r.below(6) } else { r.below(12) };
    match k {
        0 => o.push_str(*r.pick(&["null", "true", "false"])),
        1 | 2 => number(r, o),
        3 | 4 => string_lit(r, o),
        5 => o.push_str(*r.pick(&["[]", "{}", "0", "1", "\"\"", "[ ]", "{\n}"])),
        6..=8 => {
            o.push('[');
            let n = width(r);
            for k in 0..n {
                if k > 0 {
                    o.push(',');
                }
                ws(r, o, wsl);
                doc(r, o, depth - 1, budget, wsl);
                ws(r, o, wsl);
                if *budget <= 0 && k > 3 {
                    break;
                }
            }
            if n == 0 {
                ws(r, o, wsl);
            }
            o.push(']');
        }
        _ => {
            o.push('{');
            let n = width(r);
            for k in 0..n {
                if k > 0 {
                    o.push(',');
                }
                ws(r, o, wsl);
                key(r, o);
                ws(r, o, wsl);
                o.push(':');
                ws(r, o, wsl);
                doc(r, o, depth - 1, budget, wsl);
                ws(r, o, wsl);
                if *budget <= 0 && k > 3 {
                    break;
                }
            }
            if n == 0 {
                ws(r, o, wsl);
            }
            o.push('}');
        }
    }
}

fn width(r: &mut Rng) -> usize {
    match r.below(24) {
        0..=3 => 0,
        4..=9 => 1,
        10..=15 => 2,
        16..=20 => r.range(3, 6),
        21 | 22 => r.range(6, 12),
        _ => r.range(12, 40),
    }
}

pub fn random_doc(r: &mut Rng) -> String {
    let mut o = String::new();
    let wsl = *r.pick(&[0, 0, 2, 6]);
    let mut budget = *r.pick(&[1, 3, 8, 20, 40]);
    let depth = *r.pick(&[1, 2, 3, 6, 12]);
    ws(r, &mut o, wsl);
    doc(r, &mut o, depth, &mut budget, wsl);
    ws(r, &mut o, wsl);
    o
}

const SPICE: &[char] = &[
    '[', ']', '{', '}', ',', ':', '"', '\\', ' ', '\n', '\t', '\r', '\0', '\u{b}', '\u{c}', '\u{1f}', '\u{7f}', '\u{85}', '\u{a0}', '\u{feff}', '\u{2028}', '\'', '/', '*', '#', '-', '+', '.', 'e', 'E', '0', '1', '9', 'n', 't', 'f', 'u', 'l', 'N', 'T', 'a', 'x', ';',
    '(', '=', 'é',
];

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        if v.is_empty() {
            v.push(*r.pick(SPICE));
            continue;
        }
        let k = r.below(v.len());
        match r.below(9) {
            0 => {
                v.remove(k);
            }
            1 => v.insert(k, *r.pick(SPICE)),
            2 => v[k] = *r.pick(SPICE),
            3 => v.truncate(k),
            4 => {
                let c = v[k];
                v.insert(k, c);
            }
            5 => {
                let j = r.below(v.len());
                v.swap(k, j);
            }
            6 => v.push(*r.pick(SPICE)),
            7 => {
                // structural edit: replace a structural char by another
                let idx: Vec<usize> = v.iter().enumerate().filter(|(_, c)| "[]{},:\"".contains(**c)).map(|x| x.0).collect();
                if let Some(&j) = (!idx.is_empty()).then(|| r.pick(&idx)) {
                    v[j] = *r.pick(&['[', ']', '{', '}', ',', ':', '"']);
                }
            }
            _ => {
                let idx: Vec<usize> = v.iter().enumerate().filter(|(_, c)| "[]{},:\"".contains(**c)).map(|x| x.0).collect();
                if let Some(&j) = (!idx.is_empty()).then(|| r.pick(&idx)) {
                    if r.chance(1, 2) {
                        v.remove(j);
                    } else {
                        let c = v[j];
                        v.insert(j, c);
                    }
                }
            }
        }
    }
    v.into_iter().collect()
}

/// A document dominated by nesting: a random spine of arrays and objects with
/// occasional siblings on either side.
pub fn deep_doc(r: &mut Rng, depth: usize) -> String {
    let mut o = String::new();
    let mut close: Vec<String> = vec![];
    let style = r.below(5);
    let sib = r.chance(1, 3);
    for k in 0..depth {
        let arr = match style {
            0 => true,
            1 => false,
            2 => k % 2 == 0,
            _ => r.chance(1, 2),
        };
        let mut c = String::new();
        if arr {
            o.push('[');
            if sib && r.chance(1, 4) {
                o.push_str(*r.pick(&["1,", "[],", "{},", "\"a\",", "null,", "[[]],"]));
            }
            if sib && r.chance(1, 4) {
                c.push_str(*r.pick(&[",1", ",[]", ",{}", ",\"a\"", ",null", ",{\"a\":[]}"]));
            }
            c.push(']');
        } else {
            o.push('{');
            if sib && r.chance(1, 4) {
                o.push_str(*r.pick(&["\"a\":1,", "\"b\":[],", "\"c\":{},"]));
            }
            o.push_str(*r.pick(&["\"k\":", "\"a\":", "\"\":"]));
            if sib && r.chance(1, 4) {
                c.push_str(*r.pick(&[",\"z\":1", ",\"y\":[]", ",\"x\":{}"]));
            }
            c.push('}');
        }
        close.push(c);
    }
    o.push_str(*r.pick(&["", "1", "null", "\"s\"", "[]", "{}"]));
    if o.ends_with(':') {
        o.push('0');
    }
    while let Some(c) = close.pop() {
        o.push_str(&c);
    }
    o
}

/// Wide flat documents.
pub fn wide_doc(r: &mut Rng, n: usize) -> String {
    let mut o = String::new();
    let obj = r.chance(1, 2);
    o.push(if obj { '{' } else { '[' });
    for k in 0..n {
        if k > 0 {
            o.push(',');
        }
        if obj {
            let kk = if r.chance(1, 10) { r.below(n) } else { k };
            o.push_str(&format!("\"k{}\":", kk));
        }
        match r.below(6) {
            0 => o.push_str("null"),
            1 => o.push_str(&format!("[{}]", k)),
            2 => o.push_str(&format!("\"{}\"", k)),
            _ => o.push_str(&k.to_string()),
        }
    }
    o.push(if obj { '}' } else { ']' });
    o
}

/// Long strings, with an escape or a multi-byte character near a size boundary.
pub fn long_string(r: &mut Rng) -> String {
    let n = *r.pick(&[100, 127, 128, 129, 250, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192]);
    let mut o = String::from("\"");
    let at = match r.below(4) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    let wide = r.chance(1, 4);
    let every = if r.chance(1, 3) { r.range(1, 20) } else { usize::MAX };
    for k in 0..n {
        if k == at {
            o.push_str(*r.pick(&["\\n", "\\u0041", "\\ud83d\\ude00", "\\\\", "\\\"", "é", "😀", "\\u00e9", "\\/", "\\uffff", "x"]));
        } else if every != usize::MAX && k % every == every - 1 {
            o.push_str(*r.pick(&["\\t", "\\u20ac", "€", "\\\"", "\\ud800\\udc00"]));
        } else if wide && k % 3 == 0 {
            o.push('λ');
        } else {
            o.push((b'a' + (k % 26) as u8) as char);
        }
    }
    o.push('"');
    o
}

/// Objects and arrays with simple scalars, repeated names and unlike siblings.
pub fn tree_doc(r: &mut Rng, o: &mut String, depth: usize, budget: &mut isize) {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || r.chance(1, 4) {
        o.push_str(*r.pick(&["null", "true", "false", "0", "1", "-7", "2.5", "\"x\"", "\"\"", "[]", "{}", "[[]]", "[{}]", "{\"a\":{}}", "18446744073709551615", "\"a\\nb\"", "[null]", "-0"]));
        return;
    }
    let n = width(r);
    if r.chance(1, 2) {
        o.push('[');
        for k in 0..n {
            if k > 0 {
                o.push(',');
            }
            tree_doc(r, o, depth - 1, budget);
        }
        o.push(']');
    } else {
        let few = r.chance(1, 2);
        o.push('{');
        for k in 0..n {
            if k > 0 {
                o.push(',');
            }
            if few {
                o.push_str(*r.pick(&["\"a\":", "\"b\":", "\"\\u0061\":", "\"\":", "\"ab\":"]));
            } else {
                key(r, o);
                o.push(':');
            }
            tree_doc(r, o, depth - 1, budget);
        }
        o.push('}');
    }
}
