//! Exact decimal descriptions of binary floating point values.
//!
//! A float is described to the specification by decimal intervals: the reals
//! within 4 units in its last place, and the reals that round to it.  The
//! decimal expansions are computed exactly (m * 2^e is m * 5^-e * 10^e for
//! negative e) and cut to 40 digits, outward.
use crate::term::{i, tag, Term};

struct Big(Vec<u32>); // base 1e9, little endian
impl Big {
    fn new(mut n: u128) -> Big {
        let mut v = vec![];
        while n > 0 {
            v.push((n % 1_000_000_000) as u32);
            n /= 1_000_000_000;
        }
        Big(v)
    }
    fn mul(&mut self, k: u32) {
        let mut c = 0u64;
        for d in self.0.iter_mut() {
            let x = *d as u64 * k as u64 + c;
            *d = (x % 1_000_000_000) as u32;
            c = x / 1_000_000_000;
        }
        while c > 0 {
            self.0.push((c % 1_000_000_000) as u32);
            c /= 1_000_000_000;
        }
    }
    fn digits(&self) -> Vec<u8> {
        let mut s = String::new();
        for (k, d) in self.0.iter().rev().enumerate() {
            if k == 0 {
                s.push_str(&format!("{}", d));
            } else {
                s.push_str(&format!("{:09}", d));
            }
        }
        s.into_bytes().iter().map(|b| b - b'0').collect()
    }
}

/// n * 2^e as [digits, exponent], cut to 40 digits, rounded up or down.
fn dec(n: i128, e: i32, up: bool) -> Term {
    if n <= 0 {
        return Term::L(vec![Term::L(vec![]), i(0)]);
    }
    let mut b = Big::new(n as u128);
    let mut exp = 0;
    if e >= 0 {
        let mut k = e;
        while k >= 29 {
            b.mul(1 << 29);
            k -= 29;
        }
        b.mul(1 << k);
    } else {
        let mut k = -e;
        while k >= 12 {
            b.mul(244140625);
            k -= 12;
        }
        for _ in 0..k {
            b.mul(5);
        }
        exp = e;
    }
    let mut d = b.digits();
    const KEEP: usize = 40;
    if d.len() > KEEP {
        let cut = d.len() - KEEP;
        let inexact = d[KEEP..].iter().any(|x| *x != 0);
        d.truncate(KEEP);
        exp += cut as i32;
        if up && inexact {
            let mut k = KEEP;
            loop {
                if k == 0 {
                    d.insert(0, 1);
                    break;
                }
                k -= 1;
                if d[k] == 9 {
                    d[k] = 0;
                } else {
                    d[k] += 1;
                    break;
                }
            }
        }
    }
    while d.last() == Some(&0) {
        d.pop();
        exp += 1;
    }
    Term::L(vec![Term::L(d.iter().map(|x| i(*x as i64)).collect()), i(exp as i64)])
}

fn huge() -> Term {
    Term::L(vec![Term::L(vec![i(1)]), i(1_000_000_000)])
}
fn zero() -> Term {
    Term::L(vec![Term::L(vec![]), i(0)])
}

/// ["f", neg, finite, lo4, hi4, lomid, himid]
pub fn f64_term(x: f64) -> Term {
    let bits = x.to_bits();
    let neg = (bits >> 63) as i64;
    let be = ((bits >> 52) & 0x7ff) as i32;
    let frac = bits & ((1 << 52) - 1);
    if be == 0x7ff {
        let lo = if frac == 0 { huge() } else { zero() };
        return tag("f", vec![i(neg), i(0), lo.clone(), if frac == 0 { huge() } else { zero() }, lo, zero()]);
    }
    let (m, e) = if be == 0 { (frac, -1074) } else { (frac | (1 << 52), be - 1075) };
    let m4 = m as i128 * 4;
    let down = if frac == 0 && be > 1 { 1 } else { 2 };
    tag(
        "f",
        vec![
            i(neg),
            i(1),
            dec(m4 - 16, e - 2, false),
            dec(m4 + 16, e - 2, true),
            dec(m4 - down, e - 2, false),
            dec(m4 + 2, e - 2, true),
        ],
    )
}

/// Same shape; the tolerance is that of a double within 4 ulp of the decimal,
/// rounded to single precision.
pub fn f32_term(x: f32) -> Term {
    let bits = x.to_bits();
    let neg = (bits >> 31) as i64;
    let be = ((bits >> 23) & 0xff) as i32;
    let frac = bits & ((1 << 23) - 1);
    const SLACK: i128 = 64;
    if be == 0xff {
        let lo = if frac == 0 { dec(((1 << 25) - 1) * (1 << 14) - SLACK, 103 - 14, false) } else { huge() };
        let hi = if frac == 0 { huge() } else { zero() };
        return tag("f", vec![i(neg), i(0), lo.clone(), hi.clone(), lo, hi]);
    }
    let (m, e) = if be == 0 { (frac, -149) } else { (frac | (1 << 23), be - 150) };
    let m = (m as i128) << 15;
    let half = (1i128 << 14) + SLACK;
    let lo = dec(m - half, e - 15, false);
    let hi = dec(m + half, e - 15, true);
    tag("f", vec![i(neg), i(1), lo.clone(), hi.clone(), lo, hi])
}
