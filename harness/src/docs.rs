//! Documents for a type descriptor: mostly fitting it, sometimes not.
use crate::gen;
use crate::rng::Rng;
use crate::term::Term;

pub struct Docs<'a> {
    pub env: &'a [Term],
    /// one in `bad` values is of another kind; 0 means never
    pub bad: usize,
    /// many unknown members with elaborate content
    pub heavy: bool,
}

/// A JSON string literal for these bytes, with escapes chosen at random.
pub fn quote(r: &mut Rng, text: &str, o: &mut String) {
    o.push('"');
    let style = r.below(6);
    for c in text.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 32;
        if must || style == 0 || (style == 1 && r.chance(1, 3)) {
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match short {
                Some(k) if r.chance(1, 2) => {
                    o.push('\\');
                    o.push(k);
                }
                _ => {
                    for u in c.encode_utf16(&mut [0; 2]) {
                        o.push_str(&if r.chance(1, 2) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
                    }
                }
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
}

pub fn field_name(f: &Term) -> String {
    let f = f.list();
    match f[1].list().first() {
        Some(r) => String::from_utf8(r.as_bytes()).unwrap(),
        None => {
            let s = String::from_utf8(f[0].as_bytes()).unwrap();
            s.strip_prefix("r#").unwrap_or(&s).to_string()
        }
    }
}

fn near_miss(r: &mut Rng, name: &str, raw: &str) -> String {
    match r.below(10) {
        0 => raw.to_string(),
        1 => format!("r#{}", name),
        2 => name.to_uppercase(),
        3 => name.to_lowercase(),
        4 => format!("{}{}", name, r.pick(&[" ", "\0", "a", "_", "1"])),
        5 => format!(" {}", name),
        6 => {
            let n = name.chars().count();
            name.chars().take(n.saturating_sub(1)).collect()
        }
        7 => String::new(),
        8 => name.chars().rev().collect(),
        _ => r.pick(&["unknown", "other", "a", "b", "zz", "null", "A", "aa"]).to_string(),
    }
}

/// Every name that differs from this one a little: at any one place, by a
/// change that keeps the length, the set of letters or the sum of the bytes,
/// by case, by what stands around it.
pub fn near_names(name: &str) -> Vec<String> {
    let c: Vec<char> = name.chars().collect();
    let n = c.len();
    let mut v: Vec<Vec<char>> = vec![];
    let spots: Vec<usize> = if n <= 24 { (0..n).collect() } else { [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 127, 128, n / 2, n - 3, n - 2, n - 1].into_iter().filter(|k| *k < n).collect() };
    let other = |x: char| char::from_u32(x as u32 ^ 1).filter(|y| *y as u32 >= 32).unwrap_or('w');
    for &k in &spots {
        let with = |x: char| {
            let mut w = c.clone();
            w[k] = x;
            w
        };
        v.push(with(other(c[k])));
        v.push(with(if c[k].is_ascii_lowercase() { c[k].to_ascii_uppercase() } else { c[k].to_ascii_lowercase() }));
        v.push(with(match c[k] {
            '_' => '-',
            '-' => '_',
            'k' => '\u{212a}',
            's' => '\u{17f}',
            'e' => 'é',
            _ => '\0',
        }));
        v.push(with(char::from_u32(c[k] as u32 + 256).unwrap_or('w')));
        let mut w = c.clone();
        w.remove(k);
        v.push(w);
        for x in ['a', c[k]] {
            let mut w = c.clone();
            w.insert(k, x);
            v.push(w);
        }
        if k + 1 < n {
            let mut w = c.clone();
            w.swap(k, k + 1);
            v.push(w.clone());
            // the same bit of two bytes, and one up and one down
            let mut w = c.clone();
            w[k] = other(c[k]);
            w[k + 1] = other(c[k + 1]);
            v.push(w);
            let up = |x: char, d: i32| char::from_u32((x as i32 + d).max(0) as u32).unwrap_or('w');
            let mut w = c.clone();
            w[k] = up(c[k], 1);
            w[k + 1] = up(c[k + 1], -1);
            v.push(w);
            let mut w = c.clone();
            w.swap(k, n - 1);
            v.push(w);
        }
        v.push(c[..k].to_vec());
        v.push(c[k + 1..].to_vec());
    }
    let mut v: Vec<String> = v.into_iter().map(|w| w.into_iter().collect()).collect();
    let s = name.to_string();
    v.extend([s.to_uppercase(), s.to_lowercase(), c.iter().rev().collect(), s.repeat(2), format!("r#{}", s), format!("{}()", s)]);
    for x in ["\0", " ", "\t", "\n", "_", "a", "s", "0", "\u{301}", "\u{feff}", "\"", "\\", ".", "/"] {
        v.extend([format!("{}{}", s, x), format!("{}{}", x, s), format!("{}{}{}", x, s, x)]);
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| x != name && seen.insert(x.clone()));
    v
}

impl<'a> Docs<'a> {
    /// For a struct, complete documents with members whose names almost are
    /// those of fields; for an enum, strings that almost are its variants.
    pub fn near(&self, t: &Term, r: &mut Rng) -> Vec<String> {
        let t = self.resolve(t).list();
        if !matches!(t[0].str(), "struct" | "enum") {
            return vec![];
        }
        let fs: Vec<&Term> = t[1].list().iter().collect();
        let names: Vec<String> = fs.iter().map(|f| field_name(f)).collect();
        let is = |x: &String| names.contains(x);
        let mut v = vec![];
        for (k, name) in names.iter().enumerate() {
            if names.len() > 60 && name.len() < 16 && k % (names.len() / 30) != 0 {
                continue;
            }
            let near: Vec<String> = near_names(name).into_iter().filter(|x| !is(x)).collect();
            if t[0].str() == "enum" {
                for x in near {
                    let mut o = String::new();
                    quote(r, &x, &mut o);
                    v.push(o);
                }
                continue;
            }
            for part in near.chunks(40) {
                let mut o = String::from("{");
                let mut members: Vec<String> = vec![];
                for f in &fs {
                    // wide structs: only what must be there
                    if names.len() > 60 && r.chance(9, 10) && self.resolve(&f.list()[2]).list()[0].str() == "opt" {
                        continue;
                    }
                    let mut m = String::new();
                    quote(r, &field_name(f), &mut m);
                    m.push(':');
                    self.gen(&f.list()[2], r, &mut m, 1);
                    members.push(m);
                }
                for (j, x) in part.iter().enumerate() {
                    let mut m = String::new();
                    quote(r, x, &mut m);
                    m.push_str(r.pick(&[":[-77.5]", ":{\"a\":[\"?\"]}", ":[[],{\"\":null}]", ":{\"\":{}}"]));
                    let at = if j % 4 == 0 { r.below(members.len() + 1) } else { members.len() };
                    members.insert(at, m);
                }
                o.push_str(&members.join(","));
                o.push('}');
                v.push(o);
            }
        }
        v
    }
    pub fn resolve<'t>(&'t self, mut t: &'t Term) -> &'t Term {
        loop {
            t = match t.list()[0].str() {
                "ref" => &self.env[t.list()[1].int() as usize - 1],
                "dflt" => &t.list()[1],
                _ => return t,
            }
        }
    }
    fn any(&self, r: &mut Rng, o: &mut String) {
        let mut b = 5;
        gen::doc(r, o, 2, &mut b, 0);
    }
    fn elaborate(&self, r: &mut Rng, o: &mut String) {
        let mut t = String::new();
        match r.below(14) {
            0..=4 => t = gen::random_doc(r),
            5..=7 => {
                let mut b = *r.pick(&[4, 15, 40]);
                gen::tree_doc(r, &mut t, 6, &mut b);
            }
            8 | 9 => {
                let d = r.range(1, 30);
                t = gen::deep_doc(r, d);
            }
            10 => {
                let d = *r.pick(&[31, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 700]);
                t = gen::deep_doc(r, d);
            }
            11 => t = gen::long_string(r),
            12 => {
                let w = *r.pick(&[10, 40, 70, 130]);
                t = gen::wide_doc(r, w);
            }
            _ => gen::number(r, &mut t),
        }
        if self.bad > 0 && r.chance(1, self.bad) {
            t = match r.below(5) {
                0 => {
                    let mut b = String::new();
                    gen::bad_number(r, &mut b);
                    b
                }
                1 => {
                    let mut b = String::new();
                    gen::bad_string_lit(r, &mut b);
                    b
                }
                _ => gen::mutate(r, &t),
            };
        }
        if r.chance(1, 6) {
            let b = *r.pick(&["[null,", "{\"a\":1,\"zz\":", "[{\"b\":[", "[[],", "{\"\":"]);
            let c: String = b.chars().rev().filter_map(|c| match c { '[' => Some(']'), '{' => Some('}'), _ => None }).collect();
            let c = if b == "[[]," { "]".to_string() } else { c };
            t = format!("{}{}{}", b, t, c);
        }
        o.push_str(&t);
    }
    pub fn ws(&self, r: &mut Rng, o: &mut String) {
        let n = if r.chance(1, 6) { 5 } else { 0 };
        gen::ws(r, o, n);
    }
    fn len(&self, r: &mut Rng, depth: usize) -> usize {
        match r.below(16) {
            0..=3 => 0,
            4..=7 => 1,
            8..=12 => r.range(2, 4),
            13 | 14 => r.range(3, 8),
            _ => {
                if depth > 2 {
                    r.range(8, 40)
                } else {
                    r.range(2, 6)
                }
            }
        }
    }
    pub fn key_text(&self, r: &mut Rng, k: &Term) -> String {
        let l = k.list();
        let misfit = self.bad > 0 && r.chance(1, self.bad * 2);
        match l[0].str() {
            "int" => {
                if misfit {
                    return r.pick(&["", "-", "+", "1.0", "1e1", " 1", "1 ", "a", "0x1", "--1", "+-1", "99999999999999999999", "-99999999999999999999", "1_0", "١", "true", "-0", "256", "-129", "18446744073709551616"]).to_string();
                }
                let neg = !l[1].list().is_empty();
                let m = if r.chance(1, 4) { &l[1] } else { &l[2] };
                let mut d: String = m.list().iter().map(|x| x.int().to_string()).collect();
                if r.chance(3, 4) {
                    let m = if r.chance(1, 8) { 300 } else { 6 };
                    d = r.below(m).to_string();
                } else if d.is_empty() {
                    d = "0".into();
                }
                let mut s = String::new();
                if neg && r.chance(1, 3) {
                    s.push('-');
                } else if r.chance(1, 6) {
                    s.push('+');
                }
                if r.chance(1, 6) {
                    s.push_str(&"0".repeat(r.range(1, 5)));
                }
                s.push_str(&d);
                s
            }
            "bool" => {
                if misfit {
                    r.pick(&["", "True", "1", "t", "truee", " true", "null", "0"]).to_string()
                } else {
                    r.pick(&["true", "false"]).to_string()
                }
            }
            "char" => {
                if misfit {
                    r.pick(&["", "ab", "é́", "a ", "😀😀"]).to_string()
                } else if r.chance(1, 2) {
                    r.pick(&["a", "b", "\"", "\n", "é", "😀", "\\", "0"]).to_string()
                } else {
                    gen::any_char(r).to_string()
                }
            }
            _ => {
                if r.chance(3, 4) {
                    r.pick(&["a", "b", "c", "A", "B", "", "ab", "aB", "\"", "\n", "é", "a\0", "\\", "aa", "k1", "k10", "k9", "123456789", "12345678", "ABCDEFGH", "ABCDEFGHI"]).to_string()
                } else {
                    crate::model::arb_string(r)
                }
            }
        }
    }
    /// A document for a map: n members with names that return, in one of
    /// several orders, every time with another value.
    pub fn shuffled(&self, t: &Term, r: &mut Rng, n: usize, style: usize) -> Option<String> {
        let t = self.resolve(t);
        let l = t.list();
        let (key, val) = match l[0].str() {
            "opt" | "box" => return self.shuffled(&l[1], r, n, style),
            "vec" => return self.shuffled(&l[1], r, n, style).map(|x| format!("[{}]", x)),
            "map" => (Some(&l[1]), Some(&l[2])),
            "vobject" | "value" => (None, None),
            _ => return None,
        };
        // names, in the order of their texts, each in several spellings
        let kind = key.map_or("str", |k| k.list()[0].str());
        let most = match key {
            Some(k) if kind == "int" => k.list()[2].list().iter().fold(0i64, |a, d| (a * 10 + d.int()).min(99_999)) as usize,
            _ => 99_999,
        };
        let pool = match kind {
            "bool" => 2,
            "char" => (n * 3 / 4).min(700),
            _ => (n * 3 / 4).min(most),
        }
        .max(1);
        let spell = |k: usize, r: &mut Rng| -> String {
            match kind {
                "int" => format!("{}{}{}", if r.chance(1, 9) { "+" } else { "" }, "0".repeat(if r.chance(1, 9) { r.range(1, 3) } else { 0 }), k),
                "bool" => (if k == 0 { "false" } else { "true" }).to_string(),
                "char" => char::from_u32(0x21 + k as u32).unwrap().to_string(),
                "fold" => {
                    let c = (b'a' + (k % 26) as u8) as char;
                    format!("{}{}", if r.chance(1, 2) { c } else { c.to_ascii_uppercase() }, k / 26)
                }
                _ => format!("{}{:03}", ["k", "", "K\\", "é"][k % 4], k / 4),
            }
        };
        let order: Vec<usize> = match style {
            // up, then the same again; down; up and down; random; one out of order, early or late; each twice in a row
            0 => (0..n).map(|k| k % pool).collect(),
            1 => (0..n).map(|k| pool - 1 - k % pool).collect(),
            2 => (0..n).map(|k| if k < pool { k } else { (2 * pool - 1).saturating_sub(k) % pool }).collect(),
            3 => (0..n).map(|_| r.below(pool)).collect(),
            4 => {
                let at = r.below(n);
                (0..n).map(|k| if k == n - 1 { at.min(pool - 1) / 2 } else { k.min(pool - 1) }).collect()
            }
            5 => (0..n).map(|k| (k / 2) % pool).collect(),
            _ => {
                let step = [7919, 104_729, 31][style % 3];
                (0..n).map(|k| k * step % pool).collect()
            }
        };
        let mut o = String::from("{");
        for (j, k) in order.into_iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            let name = spell(k, r);
            quote(r, &name, &mut o);
            o.push(':');
            match val {
                Some(v) => self.gen(v, r, &mut o, 1),
                None => o.push_str(&match j % 7 {
                    5 => format!("[{}]", j),
                    6 => format!("{{\"b\":{},\"a\":\"{}\",\"b\":null}}", j, j),
                    _ => j.to_string(),
                }),
            }
        }
        o.push('}');
        Some(o)
    }
    /// A document whose first array or map has n entries; `put(k)` may replace
    /// the text of entry k.  The depth of that container, if there is one.
    pub fn wide(&self, t: &Term, r: &mut Rng, o: &mut String, n: usize, over: i64, put: &dyn Fn(usize, &mut String)) -> Option<i64> {
        let t = self.resolve(t);
        let l = t.list();
        match l[0].str() {
            "opt" | "box" => self.wide(&l[1], r, o, n, over, put),
            "vec" | "arr" => {
                let (n, e) = if l[0].str() == "arr" { ((l[1].int() + over).max(0) as usize, &l[2]) } else { (n, &l[1]) };
                if l[0].str() == "arr" && (l[1].int() < 300 || n < 300 && l[1].int() > 1000) {
                    return None;
                }
                o.push('[');
                for k in 0..n {
                    if k > 0 {
                        o.push(',');
                    }
                    let at = o.len();
                    self.gen(e, r, o, 1);
                    let mut x = o.split_off(at);
                    put(k, &mut x);
                    o.push_str(&x);
                }
                o.push(']');
                Some(1)
            }
            "map" => {
                let digits = l[1].list()[0].str() == "int";
                o.push('{');
                for k in 0..n {
                    if k > 0 {
                        o.push(',');
                    }
                    o.push_str(&if digits { format!("\"{}\":", 1_000_000 + k) } else { format!("\"k{:06}\":", k) });
                    let at = o.len();
                    self.gen(&l[2], r, o, 1);
                    let mut x = o.split_off(at);
                    put(k, &mut x);
                    o.push_str(&x);
                }
                o.push('}');
                Some(1)
            }
            "tup" | "struct" => {
                let tup = l[0].str() == "tup";
                let parts: Vec<(Option<String>, &Term)> = if tup { vec![(None, &l[1]), (None, &l[2])] } else { l[1].list().iter().map(|f| (Some(field_name(f)), &f.list()[2])).collect() };
                // the judge empties every container at that depth, so there must be one only
                let seqs = parts.iter().filter(|p| {
                    let mut t = self.resolve(p.1);
                    while matches!(t.list()[0].str(), "opt" | "box") {
                        t = self.resolve(&t.list()[1]);
                    }
                    matches!(t.list()[0].str(), "vec" | "arr" | "map")
                });
                if seqs.count() > 1 {
                    return None;
                }
                let mut depth = None;
                o.push(if tup { '[' } else { '{' });
                for (k, (name, t)) in parts.into_iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    if let Some(x) = name {
                        quote(r, &x, o);
                        o.push(':');
                    }
                    let at = o.len();
                    if depth.is_none() {
                        depth = self.wide(t, r, o, n, over, put).map(|d| d + 1);
                    }
                    if depth.is_none() || o.len() == at {
                        o.truncate(at);
                        self.gen(t, r, o, 1);
                    }
                }
                o.push(if tup { ']' } else { '}' });
                depth
            }
            _ => None,
        }
    }
    /// A struct with n members it does not know, or n times one it knows.
    pub fn crowd(&self, t: &Term, r: &mut Rng, n: usize, style: usize) -> Option<String> {
        let t = self.resolve(t);
        let l = t.list();
        if l[0].str() != "struct" {
            return None;
        }
        let fs = l[1].list();
        let mut members: Vec<String> = vec![];
        let member = |f: &Term, r: &mut Rng| {
            let mut m = String::new();
            quote(r, &field_name(f), &mut m);
            m.push(':');
            self.gen(&f.list()[2], r, &mut m, 1);
            m
        };
        for f in fs {
            members.push(member(f, r));
        }
        let crowd: Vec<String> = (0..n)
            .map(|k| match style {
                0 => format!("\"u{}\":null", k),
                1 => "\"?\":[]".to_string(),
                2 => format!("\"{}\":{{\"a\":{}}}", "?".repeat(k % 40 + 1), k),
                _ if fs.is_empty() => "\"\":0".to_string(),
                3 => member(&fs[k % fs.len()], r),
                _ => member(&fs[fs.len() - 1], r),
            })
            .collect();
        let at = r.below(members.len() + 1);
        let mut rest = members.split_off(at);
        members.extend(crowd);
        members.append(&mut rest);
        Some(format!("{{{}}}", members.join(",")))
    }
    pub fn gen(&self, t: &Term, r: &mut Rng, o: &mut String, depth: usize) {
        if self.bad > 0 && r.chance(1, self.bad) {
            match r.below(8) {
                0 => o.push_str("null"),
                1 => o.push_str(*r.pick(&["true", "false"])),
                2 => o.push_str(*r.pick(&["0", "1", "-1", "-0", "255", "256", "1.0", "1e0"])),
                3 => gen::string_lit(r, o),
                4 => o.push_str(*r.pick(&["[]", "{}", "[null]", "[[]]", "[{}]"])),
                5 => o.push_str("{\"a\":1}"),
                6 => o.push_str("[1,2]"),
                _ => self.any(r, o),
            }
            return;
        }
        let t = self.resolve(t);
        let l = t.list();
        match l[0].str() {
            "int" => {
                let mut near = |d: &Term, r: &mut Rng| -> i128 {
                    let s: String = d.list().iter().map(|x| x.int().to_string()).collect();
                    let n: i128 = if s.is_empty() { 0 } else { s.parse().unwrap() };
                    match r.below(4) {
                        0 => n,
                        1 => n - r.below(3) as i128,
                        2 => (r.next() as i128) % (n + 1),
                        _ => n + if self.bad > 0 { r.below(4) as i128 } else { 0 },
                    }
                };
                let n = match r.below(5) {
                    0 => near(&l[2], r),
                    1 => -near(&l[1], r),
                    2 if self.bad > 0 => {
                        let s = gen::int_digits(r);
                        if r.chance(1, 3) {
                            o.push('-');
                        }
                        o.push_str(&s);
                        return;
                    }
                    3 if self.bad > 0 && r.chance(1, 3) => {
                        o.push_str(*r.pick(&["-0", "0", "0.0", "1e2", "1.0", "-1", "-1.0", "1E0", "-0.0", "100e-2"]));
                        return;
                    }
                    _ => r.below(100) as i128,
                };
                o.push_str(&n.to_string());
            }
            "f64" | "f32" => {
                if l[0].str() == "f32" && r.chance(1, 6) {
                    o.push_str(*r.pick(&["3.4028235e38", "3.4028234663852886e38", "3.5e38", "1e39", "-1e300", "1e-45", "1e-46", "7e-46", "1.1754944e-38", "16777217", "16777219", "0.1", "3.4028236e38"]));
                } else {
                    gen::number(r, o)
                }
            }
            "unit" => o.push_str("null"),
            "bool" => o.push_str(*r.pick(&["true", "false"])),
            "str" => gen::string_lit(r, o),
            "num" => gen::number(r, o),
            "opt" => {
                if r.chance(1, 3) {
                    o.push_str("null");
                } else {
                    self.gen(&l[1], r, o, depth);
                }
            }
            "box" => self.gen(&l[1], r, o, depth),
            "tup" => {
                let n = if self.bad > 0 && r.chance(1, 6) { r.below(5) } else { 2 };
                self.list(r, o, depth, (0..n).map(|k| &l[1 + k % 2]).collect());
            }
            "vec" => {
                let n = if depth == 0 { 0 } else { self.len(r, depth) };
                self.list(r, o, depth, vec![&l[1]; n]);
            }
            "arr" => {
                let n = l[1].int() as usize;
                let m = if self.bad > 0 && r.chance(1, 5) { *r.pick(&[0, n.saturating_sub(1), n + 1, n + 2, 2 * n, n / 2, n + 7]) } else { n };
                self.list(r, o, depth, vec![&l[2]; m]);
            }
            "map" => {
                let n = if depth == 0 { 0 } else { self.len(r, depth) };
                o.push('{');
                for k in 0..n {
                    if k > 0 {
                        o.push(',');
                    }
                    self.ws(r, o);
                    let t = self.key_text(r, &l[1]);
                    quote(r, &t, o);
                    self.ws(r, o);
                    o.push(':');
                    self.ws(r, o);
                    self.gen(&l[2], r, o, depth.saturating_sub(1));
                    self.ws(r, o);
                }
                o.push('}');
            }
            "struct" => self.object(&l[1], r, o, depth),
            "enum" => {
                let f = r.pick(l[1].list()).clone();
                let name = field_name(&f);
                let raw = String::from_utf8(f.list()[0].as_bytes()).unwrap();
                let t = if self.bad > 0 && r.chance(1, 4) { near_miss(r, &name, &raw) } else { name };
                quote(r, &t, o);
            }
            "varray" => {
                let mut p = String::new();
                let mut b = 8;
                self.any(r, &mut p);
                o.push('[');
                for k in 0..self.len(r, 2) {
                    if k > 0 {
                        o.push(',');
                    }
                    gen::doc(r, o, 2, &mut b, 1);
                }
                o.push(']');
            }
            "vobject" => {
                let mut b = 8;
                o.push('{');
                for k in 0..self.len(r, 2) {
                    if k > 0 {
                        o.push(',');
                    }
                    gen::key(r, o);
                    o.push(':');
                    gen::doc(r, o, 2, &mut b, 1);
                }
                o.push('}');
            }
            "value" | "ignore" => {
                let mut b = 8;
                gen::doc(r, o, 3, &mut b, 1)
            }
            x => panic!("descriptor {}", x),
        }
    }
    fn list(&self, r: &mut Rng, o: &mut String, depth: usize, ts: Vec<&Term>) {
        o.push('[');
        for (k, t) in ts.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            self.ws(r, o);
            self.gen(t, r, o, depth.saturating_sub(1));
            self.ws(r, o);
        }
        o.push(']');
    }
    fn object(&self, fields: &Term, r: &mut Rng, o: &mut String, depth: usize) {
        let fs = fields.list();
        let mut members: Vec<(String, Option<&Term>)> = vec![];
        for f in fs {
            let name = field_name(f);
            let ty = &f.list()[2];
            let opt = self.resolve(ty).list()[0].str() == "opt" || ty.list()[0].str() == "dflt";
            let n = if opt {
                if depth == 0 || fs.len() > 40 {
                    r.below(8) / 7
                } else {
                    *r.pick(&[0, 0, 1, 1, 1, 2])
                }
            } else if self.bad > 0 && r.chance(1, 30 + fs.len()) {
                0
            } else {
                *r.pick(&[1, 1, 1, 1, 1, 1, 1, 2, 3])
            };
            for _ in 0..n {
                members.push((name.clone(), Some(ty)));
            }
        }
        let unknown: &[usize] = if self.heavy { &[0, 1, 1, 2, 3, 5] } else { &[0, 0, 0, 1, 2] };
        for _ in 0..*r.pick(unknown) {
            let n = if !fs.is_empty() && r.chance(2, 3) {
                let f = r.pick(fs).clone();
                let raw = String::from_utf8(f.list()[0].as_bytes()).unwrap();
                near_miss(r, &field_name(&f), &raw)
            } else {
                r.pick(&["unknown", "x y", "", "__out", "zzz"]).to_string()
            };
            members.push((n, None));
        }
        for k in (1..members.len()).rev() {
            if r.chance(1, 2) {
                let j = r.below(k + 1);
                members.swap(k, j);
            }
        }
        o.push('{');
        for (k, (n, t)) in members.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            self.ws(r, o);
            quote(r, n, o);
            self.ws(r, o);
            o.push(':');
            self.ws(r, o);
            match t {
                Some(t) => self.gen(t, r, o, depth.saturating_sub(1)),
                None if self.heavy => self.elaborate(r, o),
                None => self.any(r, o),
            }
            self.ws(r, o);
        }
        o.push('}');
    }
}
