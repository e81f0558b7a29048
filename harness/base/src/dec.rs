//! Reference decimal numbers: sign, significant digits, power of ten. No arithmetic shortcuts shared
//! with the decimal library used by the code under test.

use crate::engine::Src;
use std::fmt;

/// value = (-1)^neg * int(digits) * 10^exp; digits has no leading or trailing zero; zero is empty.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Dec {
    pub neg: bool,
    pub digits: Vec<u8>,
    pub exp: i64,
}

impl fmt::Debug for Dec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.text())
    }
}

pub enum Stored {
    Value(Dec),
    Overflow,
}

impl Dec {
    pub fn zero() -> Dec {
        Dec { neg: false, digits: vec![], exp: 0 }
    }
    pub fn new(neg: bool, digits: &[u8], exp: i64) -> Dec {
        let mut d: Vec<u8> = digits.iter().copied().skip_while(|x| *x == 0).collect();
        let mut e = exp;
        while d.last() == Some(&0) {
            d.pop();
            e += 1;
        }
        if d.is_empty() {
            return Dec::zero();
        }
        Dec { neg, digits: d, exp: e }
    }
    pub fn from_u128(neg: bool, mut v: u128, exp: i64) -> Dec {
        let mut d = Vec::new();
        while v > 0 {
            d.push((v % 10) as u8);
            v /= 10;
        }
        d.reverse();
        Dec::new(neg, &d, exp)
    }
    pub fn from_i64(v: i64) -> Dec {
        Dec::from_u128(v < 0, v.unsigned_abs() as u128, 0)
    }
    pub fn is_zero(&self) -> bool {
        self.digits.is_empty()
    }
    /// digits as an integer; only for at most 38 digits
    pub fn int(&self) -> u128 {
        self.digits.iter().fold(0u128, |a, d| a * 10 + *d as u128)
    }
    /// value is in [10^(m-1), 10^m)
    pub fn magnitude(&self) -> i64 {
        self.digits.len() as i64 + self.exp
    }
    /// Text in scientific form, valid JSON.
    pub fn text(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        for d in &self.digits {
            s.push((b'0' + d) as char);
        }
        if self.exp != 0 {
            s.push_str(&format!("e{}", self.exp));
        }
        s
    }
    /// Exact value of a JSON number text; None if it is not one.
    pub fn parse(s: &str) -> Option<Dec> {
        let b = s.as_bytes();
        let mut i = 0;
        let neg = b.first() == Some(&b'-');
        if neg {
            i += 1;
        }
        let mut digits = Vec::new();
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            digits.push(b[i] - b'0');
            i += 1;
        }
        if i == st || (b[st] == b'0' && i - st > 1) {
            return None;
        }
        let mut exp = 0i64;
        if i < b.len() && b[i] == b'.' {
            i += 1;
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                digits.push(b[i] - b'0');
                exp -= 1;
                i += 1;
            }
            if i == st {
                return None;
            }
        }
        if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
            i += 1;
            let mut eneg = false;
            if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
                eneg = b[i] == b'-';
                i += 1;
            }
            let st = i;
            let mut e = 0i64;
            while i < b.len() && b[i].is_ascii_digit() {
                e = (e * 10 + (b[i] - b'0') as i64).min(1_000_000_000_000);
                i += 1;
            }
            if i == st {
                return None;
            }
            exp += if eneg { -e } else { e };
        }
        if i != b.len() {
            return None;
        }
        Some(Dec::new(neg, &digits, exp))
    }
    /// What storing this value must give: 38 significant digits, half away from zero, range checks.
    pub fn stored(&self) -> Stored {
        let mut d = self.clone();
        if d.digits.len() > 38 {
            let up = d.digits[38] >= 5;
            let dropped = d.digits.len() - 38;
            let mut k = d.digits[..38].to_vec();
            let mut e = d.exp + dropped as i64;
            if up {
                let mut i = k.len();
                loop {
                    if i == 0 {
                        k.insert(0, 1);
                        break;
                    }
                    i -= 1;
                    if k[i] == 9 {
                        k[i] = 0;
                    } else {
                        k[i] += 1;
                        break;
                    }
                }
            }
            if k.len() > 38 {
                k.pop();
                e += 1;
            }
            d = Dec::new(d.neg, &k, e);
        }
        if d.is_zero() {
            return Stored::Value(d);
        }
        if d.magnitude() > 126 {
            return Stored::Overflow;
        }
        if d.magnitude() <= -130 {
            return Stored::Value(Dec::zero());
        }
        Stored::Value(d)
    }
}

/// A digit string with carry-prone and boundary shapes.
pub fn gen_digits(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.weighted(&[50, 20, 15, 15]) {
        0 => 1 + s.small(9.min(max - 1)),
        1 => 1 + s.small(max.min(45) - 1),
        2 => s.range(30.min(max), 42.min(max)),
        _ => 1 + s.below(max),
    };
    let shape = s.weighted(&[6, 2, 2, 2, 1]);
    let mut v: Vec<u8> = Vec::with_capacity(n);
    match shape {
        0 => {
            for i in 0..n {
                v.push(if i < 60 { s.raw(9) as u8 } else { (i * 7 % 10) as u8 });
            }
        }
        1 => {
            // all nines, possibly with another digit somewhere
            v = vec![9; n];
            if s.chance(1, 2) {
                let i = s.below(n);
                v[i] = s.raw(9) as u8;
            }
        }
        2 => {
            // 1 followed by zeros and a tail digit
            v = vec![0; n];
            v[0] = 1 + s.raw(8) as u8;
            v[n - 1] = s.raw(9) as u8;
        }
        3 => {
            // around half: x 4 9 9 9 / x 5 0 0 0 at the 39th digit
            for _ in 0..n.min(38) {
                v.push(s.raw(9) as u8);
            }
            if n > 38 {
                v.push(4 + s.raw(1) as u8);
                let fill = if s.chance(1, 2) { 9 } else { 0 };
                while v.len() < n {
                    v.push(fill);
                }
            }
        }
        _ => {
            let d = s.raw(9) as u8;
            v = vec![d; n];
        }
    }
    v
}

/// A number that the store holds exactly (at most 38 digits, in range).
pub fn gen_dec(s: &mut Src) -> Dec {
    match s.weighted(&[30, 25, 25, 10, 10]) {
        0 => Dec::from_i64(s.small(1000) as i64 * if s.chance(1, 3) { -1 } else { 1 }),
        1 => {
            let v = s.value(u64::MAX);
            Dec::from_u128(s.chance(1, 3), v as u128, 0)
        }
        2 => {
            // decimals of ordinary size
            let d = gen_digits(s, 38);
            let e = s.raw(44) as i64 - 42;
            let d = Dec::new(s.chance(1, 3), &d, e);
            fit(d)
        }
        3 => {
            // whole range
            let d = gen_digits(s, 38);
            let n = d.len() as i64;
            let mag = s.raw(255) as i64 - 129;
            fit(Dec::new(s.chance(1, 3), &d, mag - n))
        }
        _ => {
            // limits of the range and of fixed-width integers
            let pool = [
                "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
                "9007199254740993", "99999999999999999999999999999999999999e88", "1e125", "-1e125", "1e-130", "-1e-130",
                "99999999999999999999999999999999999999", "-99999999999999999999999999999999999999", "1e37", "1e38",
                "1e39", "1e40", "1e41", "0.1", "0.01", "1e-39", "1e-40", "1e-41", "100", "4294967295", "4294967296",
                "0.00000000000000000000000000000000000001", "12345678901234567890123456789012345678e-39", "0",
                "65535", "255", "256", "0.5", "-0.5", "1.5", "10000000000", "1e10", "99e124", "12345e-134",
            ];
            let t = *s.pick(&pool);
            Dec::parse(t).unwrap()
        }
    }
}

fn fit(d: Dec) -> Dec {
    match d.stored() {
        Stored::Value(v) => v,
        Stored::Overflow => Dec::new(d.neg, &d.digits, 125 - d.digits.len() as i64),
    }
}

/// One JSON spelling of the exact value `d` (which may need any number of digits).
pub fn spell(s: &mut Src, d: &Dec) -> String {
    let mut digits: Vec<u8> = d.digits.clone();
    let mut exp = d.exp;
    let mut out = String::new();
    if d.neg {
        out.push('-');
    }
    if digits.is_empty() {
        let forms = ["0", "0.0", "0e0", "0E+5", "0.000e-3", "0e999999", "-0", "-0.0", "0.00000000000000000000000000000000000000000000", "0e-100000"];
        return s.pick(&forms).to_string();
    }
    // trailing zeros made explicit
    let z = match s.weighted(&[5, 3, 1]) {
        0 => 0,
        1 => s.small(5),
        _ => s.small(50),
    } as i64;
    for _ in 0..z {
        digits.push(0);
    }
    exp -= z;
    match s.weighted(&[4, 3, 3]) {
        0 => {
            // plain positional if not too long
            let n = digits.len() as i64;
            if exp >= 0 && n + exp <= 200 {
                for x in &digits {
                    out.push((b'0' + x) as char);
                }
                for _ in 0..exp {
                    out.push('0');
                }
            } else if exp < 0 && -exp <= 220 {
                let f = (-exp) as usize;
                if digits.len() > f {
                    let (a, b) = digits.split_at(digits.len() - f);
                    push(&mut out, a);
                    out.push('.');
                    push(&mut out, b);
                } else {
                    out.push_str("0.");
                    for _ in 0..f - digits.len() {
                        out.push('0');
                    }
                    push(&mut out, &digits);
                }
            } else {
                push(&mut out, &digits);
                push_exp(s, &mut out, exp);
            }
        }
        1 => {
            push(&mut out, &digits);
            push_exp(s, &mut out, exp);
        }
        _ => {
            // point anywhere, or before all digits
            let p = s.below(digits.len() + 1);
            if p == 0 {
                let lead = s.small(12);
                out.push_str("0.");
                for _ in 0..lead {
                    out.push('0');
                }
                push(&mut out, &digits);
                push_exp(s, &mut out, exp + digits.len() as i64 + lead as i64);
            } else if p == digits.len() {
                push(&mut out, &digits);
                push_exp(s, &mut out, exp);
            } else {
                push(&mut out, &digits[..p]);
                out.push('.');
                push(&mut out, &digits[p..]);
                push_exp(s, &mut out, exp + (digits.len() - p) as i64);
            }
        }
    }
    out
}

fn push(out: &mut String, d: &[u8]) {
    for x in d {
        out.push((b'0' + x) as char);
    }
}
fn push_exp(s: &mut Src, out: &mut String, e: i64) {
    if e == 0 && s.chance(2, 3) {
        return;
    }
    out.push(if s.chance(1, 2) { 'E' } else { 'e' });
    if e < 0 {
        out.push('-');
    } else if s.chance(1, 3) {
        out.push('+');
    }
    let z = if s.chance(1, 6) { s.small(4) } else { 0 };
    for _ in 0..z {
        out.push('0');
    }
    out.push_str(&e.abs().to_string());
}
