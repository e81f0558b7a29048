//! Structured generators of documents.
use crate::dec::gen_dec;
use crate::engine::{mix, Src};
use crate::model::{key_lt, Val};

const ODD: [char; 31] = [
    '"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\u{0}', '\u{1}', '\u{1f}', '\u{7f}', '\u{80}', '\u{e9}', '\u{7ff}',
    '[', ']', '{', '}', ',', ':', ' ', '\u{800}', '\u{20ac}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
];

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[50, 20, 10, 10, 10]) {
        0 => (b'a' + s.raw(5) as u8) as char,
        1 => *s.pick(&ODD),
        2 => s.raw(0x7f) as u8 as char,
        3 => char::from_u32(s.raw(0x1f) as u32).unwrap(),
        _ => {
            let c = s.raw(0x10ffff) as u32;
            char::from_u32(c).unwrap_or('\u{fffd}')
        }
    }
}

/// a string of exactly `n` bytes
pub fn string_of(s: &mut Src, n: usize) -> String {
    let mut out = String::with_capacity(n);
    if n <= 24 {
        while out.len() < n {
            let c = gen_char(s);
            if out.len() + c.len_utf8() <= n {
                out.push(c);
            } else {
                out.push('a');
            }
        }
        return out;
    }
    let k = 1 + s.small(5);
    let mut unit: Vec<char> = (0..k).map(|_| gen_char(s)).collect();
    if s.chance(1, 2) {
        unit.push('x');
    }
    let salt = s.raw(255);
    let mut i = 0u64;
    while out.len() < n {
        let c = if mix(i ^ (salt << 32)) % 5 == 0 { (b'A' + (mix(i + salt) % 26) as u8) as char } else { unit[(i % unit.len() as u64) as usize] };
        i += 1;
        if out.len() + c.len_utf8() <= n {
            out.push(c);
        } else {
            out.push('z');
        }
    }
    out
}

pub fn gen_string(s: &mut Src, max: usize) -> String {
    let n = s.size(max);
    string_of(s, n)
}

const KEYS: [&str; 30] = [
    "a", "b", "c", "k", "aa", "ab", "ba", "bb", "abc", "abd", "key", "name", "", "size", "type", "count", "last", "to", "a1",
    "é", "ê", "aé", "€", "a b", "0", "A", "zz", "x.y", "a\\nb", "keykey",
];

pub fn gen_key(s: &mut Src, max: usize) -> String {
    match s.weighted(&[60, 20, 15, 5]) {
        0 => {
            let k = *s.pick(&KEYS);
            if k.len() > max {
                String::new()
            } else {
                k.to_string()
            }
        }
        1 => {
            // short strings over a tiny alphabet: many shared lengths and prefixes
            let n = s.below(5.min(max + 1));
            (0..n).map(|_| *s.pick(&['a', 'b', 'B'])).collect()
        }
        2 => {
            let n = s.below(9.min(max + 1));
            string_of(s, n)
        }
        _ => gen_string(s, max),
    }
}

/// the i-th key of a synthetic family of distinct keys
pub fn family_key(style: u64, salt: u64, i: usize) -> String {
    match style {
        0 => i.to_string(),
        1 => format!("{:05}", i),
        2 => format!("{:08x}", (mix(salt) as u32).wrapping_mul(2654435769).wrapping_add((i as u32).wrapping_mul(0x9E3779B1))),
        3 => {
            // bijective base 3: variable lengths, dense sets of each length
            let mut n = i + 1;
            let mut t = Vec::new();
            while n > 0 {
                n -= 1;
                t.push(b'a' + (n % 3) as u8);
                n /= 3;
            }
            t.reverse();
            String::from_utf8(t).unwrap()
        }
        4 => "x".repeat(i % 50) + &format!("{}", i),
        _ => {
            let c = char::from_u32(0x4e00 + (i % 20000) as u32).unwrap();
            format!("{}{}", c, i / 20000)
        }
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub nodes: usize,
    pub bytes: usize,
    pub max_count: usize,
    pub max_str: usize,
    pub max_key: usize,
    pub max_depth: usize,
}

impl Cfg {
    pub fn normal() -> Cfg {
        Cfg { nodes: 60, bytes: 3_000, max_count: 2_000, max_str: 3_000, max_key: 1_200, max_depth: 100 }
    }
    pub fn large() -> Cfg {
        Cfg { nodes: 400, bytes: 200_000, max_count: 65_535, max_str: 70_000, max_key: 65_535, max_depth: 100 }
    }
    pub fn small() -> Cfg {
        Cfg { nodes: 25, bytes: 400, max_count: 12, max_str: 40, max_key: 20, max_depth: 100 }
    }
}

/// normal most of the time, sometimes large
pub fn gen_cfg(s: &mut Src) -> Cfg {
    match s.weighted(&[70, 25, 5]) {
        0 => Cfg::normal(),
        1 => Cfg::small(),
        _ => Cfg::large(),
    }
}

pub fn gen_val(s: &mut Src, cfg: &Cfg) -> Val {
    if s.bulk {
        return bulk(s, if cfg!(debug_assertions) { 2_000_000 } else { 40_000_000 });
    }
    let mut c = *cfg;
    let top = s.weighted(&[45, 35, 20]);
    let wrap = if s.chance(1, 12) { s.size(cfg.max_depth) } else { 0 };
    let depth = cfg.max_depth - wrap;
    let v = match top {
        _ if depth == 0 => scalar(s, &mut c),
        0 => object(s, &mut c, depth),
        1 => array(s, &mut c, depth),
        _ => scalar(s, &mut c),
    };
    wrap_in(s, v, wrap)
}

/// a long string: a drawn piece over and over, with a mark now and then
pub fn long_string(s: &mut Src, n: usize) -> String {
    let k = 1 + s.small(60);
    let unit = string_of(s, k);
    let gap = 64 + s.below(4000);
    let mut t = String::with_capacity(n + 100);
    let mut next = 0;
    while t.len() < n {
        if t.len() >= next {
            t.push_str(&t.len().to_string());
            next = t.len() + gap;
        }
        t.push_str(&unit);
    }
    while t.len() > n {
        t.pop();
    }
    while t.len() < n {
        t.push('.');
    }
    t
}

/// a tree whose shape follows from a few drawn numbers
fn tree(salt: u64, fan: usize, at: u64, depth: usize, left: &mut usize) -> Val {
    let h = mix(at ^ (salt << 32));
    if depth == 0 || *left == 0 || h % 4 == 0 && depth < 5 {
        return match (h >> 8) % 6 {
            0 => Val::Null,
            1 => Val::Bool(h & 1 == 0),
            2 => Val::Str(format!("v{}", at % 1000)),
            3 => Val::Obj(vec![]),
            4 => Val::Arr(vec![]),
            _ => Val::Num(crate::dec::Dec::from_i64((at % 100_000) as i64)),
        };
    }
    let n = ((h >> 20) as usize % (fan + 1)).min(*left);
    *left -= n;
    let mut go = |i: usize| tree(salt, fan, at.wrapping_mul(31).wrapping_add(i as u64 + 1), depth - 1, left);
    if (h >> 12) & 1 == 0 {
        Val::Arr((0..n).map(&mut go).collect())
    } else {
        const K: [&str; 8] = ["a", "b", "c", "k", "aa", "bb", "name", "key"];
        let o = (h >> 40) as usize;
        Val::Obj((0..n).map(|i| (if i < 8 { K[(i + o) % 8].to_string() } else { format!("m{}", i) }, go(i))).collect())
    }
}

/// a large document: many bytes, many elements, many levels of many elements, long strings or keys
pub fn bulk(s: &mut Src, cap: usize) -> Val {
    let v = match s.weighted(&[25, 20, 15, 25, 10, 5]) {
        0 => {
            let n = 1 + s.wide(60);
            let mut left = cap;
            let t: Vec<Val> = (0..n)
                .map(|i| {
                    let k = s.wide((6 << 20).min(left));
                    left -= k;
                    let mut x = if k > 300 { long_string(s, k) } else { string_of(s, k) };
                    if i % 3 == 0 {
                        x.insert_str(0, &i.to_string());
                    }
                    Val::Str(x)
                })
                .collect();
            containing(s, t)
        }
        1 => {
            let n = 300 + s.wide(65_235);
            let mut c = Cfg::normal();
            let t = templates(s, &mut c, 50);
            containing(s, (0..n).map(|i| instance(&t, i)).collect())
        }
        2 => {
            let o = 2 + s.wide(2_000);
            let n = s.wide((150_000 / o).min(65_535));
            let mut c = Cfg::normal();
            let t = templates(s, &mut c, 50);
            let (style, salt) = (s.raw(6), s.raw(255));
            let rows = (0..o)
                .map(|j| {
                    let r = (0..n).map(|i| instance(&t, i * 7 + j));
                    if style == 6 || j % 3 == 0 {
                        Val::Arr(r.collect())
                    } else {
                        Val::Obj(r.enumerate().map(|(i, x)| (family_key(style, salt, i), x)).collect())
                    }
                })
                .collect();
            containing(s, rows)
        }
        3 => {
            let (salt, fan) = (s.raw(1 << 20), 2 + s.wide(3_000));
            let depth = 2 + s.below(12);
            let mut left = 100 + s.wide(30_000);
            let rows = (0..1 + s.below(6) as u64).map(|i| tree(salt, fan, i + 1, depth, &mut left)).collect();
            containing(s, rows)
        }
        4 => {
            let n = s.wide(cap / 2);
            let t = Val::Str(long_string(s, n));
            match s.raw(2) {
                0 => t,
                1 => Val::Arr(vec![Val::Num(crate::dec::Dec::from_i64(1)), t, Val::Bool(true)]),
                _ => Val::Obj(vec![("b".into(), t), ("a".into(), Val::Null), ("cc".into(), Val::Arr(vec![]))]),
            }
        }
        _ => {
            let n = 1 + s.below(60);
            let mut m: Vec<(String, Val)> = Vec::new();
            for i in 0..n {
                let k = s.wide(65_500);
                let mut k = if k > 300 { long_string(s, k) } else { string_of(s, k) };
                if i % 2 == 0 {
                    k.push_str(&i.to_string());
                }
                if !m.iter().any(|x| x.0 == k) {
                    m.push((k, Val::Num(crate::dec::Dec::from_i64(i as i64))));
                }
            }
            Val::Obj(m)
        }
    };
    let w = if s.chance(1, 4) { s.below(4) } else { 0 };
    wrap_in(s, v, w)
}

fn containing(s: &mut Src, t: Vec<Val>) -> Val {
    let style = s.raw(8);
    if style < 4 {
        return Val::Arr(t);
    }
    let salt = s.raw(255);
    Val::Obj(t.into_iter().enumerate().map(|(i, x)| (family_key(style - 4, salt, i), x)).collect())
}

/// wraps `v` in `n` containers
pub fn wrap_in(s: &mut Src, mut v: Val, n: usize) -> Val {
    let style = if n > 0 { s.raw(7) } else { 0 };
    for i in 0..n {
        let arr = match style {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => mix(i as u64 ^ style) & 1 == 0,
        };
        v = if arr {
            if style >= 5 && i % 3 == 0 {
                Val::Arr(vec![Val::Bool(true), v, Val::Num(crate::dec::Dec::from_i64(i as i64))])
            } else {
                Val::Arr(vec![v])
            }
        } else if style >= 4 && i % 4 == 0 {
            Val::Obj(vec![("b".into(), v), ("a".into(), Val::Null), ("cc".into(), Val::Str("s".into()))])
        } else {
            Val::Obj(vec![((if i % 2 == 0 { "a" } else { "key" }).into(), v)])
        };
    }
    v
}

pub fn scalar(s: &mut Src, c: &mut Cfg) -> Val {
    match s.weighted(&[15, 20, 30, 35]) {
        0 => Val::Null,
        1 => Val::Bool(s.chance(1, 2)),
        2 => Val::Num(gen_dec(s)),
        _ => {
            let max = c.max_str.min(c.bytes);
            let t = gen_string(s, max);
            c.bytes -= t.len().min(c.bytes);
            Val::Str(t)
        }
    }
}

fn any(s: &mut Src, c: &mut Cfg, depth: usize) -> Val {
    if c.nodes == 0 || depth == 0 {
        return match s.raw(3) {
            0 => Val::Null,
            1 => Val::Bool(true),
            2 => Val::Num(crate::dec::Dec::from_i64(7)),
            _ => Val::Str("s".into()),
        };
    }
    c.nodes -= 1;
    match s.weighted(&[60, 20, 20]) {
        0 => scalar(s, c),
        1 => array(s, c, depth),
        _ => object(s, c, depth),
    }
}

const INDIVIDUAL: usize = 48;

pub fn array(s: &mut Src, c: &mut Cfg, depth: usize) -> Val {
    let n = s.size(c.max_count);
    if n <= INDIVIDUAL && n <= c.nodes + 4 {
        return Val::Arr((0..n).map(|_| any(s, c, depth - 1)).collect());
    }
    let n = if n * 8 > c.bytes.max(400) * 4 { n.min(c.bytes.max(400) / 2) } else { n };
    let t = templates(s, c, depth);
    Val::Arr((0..n).map(|i| instance(&t, i)).collect())
}

fn templates(s: &mut Src, c: &mut Cfg, depth: usize) -> (Vec<Val>, u64) {
    let k = 1 + s.below(4);
    c.nodes = c.nodes.min(6);
    let mut small = Cfg { nodes: 3, bytes: 60, max_count: 3, max_str: 20, max_key: 10, ..*c };
    let t = (0..k).map(|_| any(s, &mut small, depth - 1)).collect();
    (t, s.raw(15))
}

fn instance(t: &(Vec<Val>, u64), i: usize) -> Val {
    let v = &t.0[(mix(i as u64 ^ (t.1 << 40)) % t.0.len() as u64) as usize];
    match (v, t.1 & 1) {
        (Val::Num(_), 1) => Val::Num(crate::dec::Dec::from_i64(i as i64 * 37)),
        (Val::Str(_), 1) => Val::Str(format!("v{}", i)),
        (Val::Bool(_), 1) => Val::Bool(i % 3 == 0),
        _ => v.clone(),
    }
}

pub fn object(s: &mut Src, c: &mut Cfg, depth: usize) -> Val {
    let n = s.size(c.max_count);
    if n <= INDIVIDUAL && n <= c.nodes + 4 {
        let mut m: Vec<(String, Val)> = Vec::with_capacity(n);
        for _ in 0..n {
            let k = gen_key(s, c.max_key.min(c.bytes));
            c.bytes -= k.len().min(c.bytes);
            let v = any(s, c, depth - 1);
            if !m.iter().any(|x| x.0 == k) {
                m.push((k, v));
            }
        }
        return Val::Obj(m);
    }
    let n = if n * 12 > c.bytes.max(400) * 4 { n.min(c.bytes.max(400) / 4) } else { n };
    let t = templates(s, c, depth);
    let style = s.raw(5);
    let salt = s.raw(255);
    Val::Obj((0..n).map(|i| (family_key(style, salt, i), instance(&t, i))).collect())
}

/// A permutation of 0..n, drawn element-wise when small, by shape when large.
pub fn order(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    if n < 2 {
        return p;
    }
    if n <= 12 {
        for i in (1..n).rev() {
            // 0 keeps the element in place
            let j = i - s.below(i + 1);
            p.swap(i, j);
        }
        return p;
    }
    match s.raw(4) {
        0 => {}
        1 => p.reverse(),
        2 => {
            let k = s.below(n);
            p.rotate_left(k);
        }
        3 => {
            let (a, b): (Vec<usize>, Vec<usize>) = p.iter().partition(|x| **x % 2 == 0);
            p = a;
            p.extend(b.iter().rev());
        }
        _ => {
            let salt = s.raw(u32::MAX as u64);
            p.sort_by_key(|x| mix(*x as u64 ^ (salt << 20)));
        }
    }
    p
}

pub fn sorted(m: &[(String, Val)]) -> bool {
    m.windows(2).all(|w| key_lt(&w[0].0, &w[1].0))
}

/// Changes exactly one thing about a document; None if there was nothing to change.
/// The result never denotes the same value.
pub fn tweak(s: &mut Src, v: &Val) -> Val {
    let n = v.nodes();
    let at = s.below(n);
    let mut k = 0usize;
    tweak_at(s, v, at, &mut k)
}

fn tweak_at(s: &mut Src, v: &Val, at: usize, k: &mut usize) -> Val {
    let here = *k == at;
    *k += 1;
    if here {
        return change(s, v);
    }
    match v {
        Val::Arr(a) => Val::Arr(a.iter().map(|x| skip_or(s, x, at, k)).collect()),
        Val::Obj(m) => Val::Obj(m.iter().map(|(q, x)| (q.clone(), skip_or(s, x, at, k))).collect()),
        _ => v.clone(),
    }
}
fn skip_or(s: &mut Src, x: &Val, at: usize, k: &mut usize) -> Val {
    let n = x.nodes();
    if at < *k || at >= *k + n {
        *k += n;
        x.clone()
    } else {
        tweak_at(s, x, at, k)
    }
}

/// a place in something of `n` parts: anywhere, near either end, or next to a round number
pub fn spot(s: &mut Src, n: usize) -> usize {
    match s.raw(3) {
        0 => s.small((n - 1).min(20)),
        1 => n - 1 - s.small((n - 1).min(20)),
        2 => s.size(n - 1),
        _ => s.below(n),
    }
}

fn change(s: &mut Src, v: &Val) -> Val {
    use crate::dec::Dec;
    // change the type altogether
    if s.chance(1, 4) {
        let opts = [
            Val::Null,
            Val::Bool(false),
            Val::Bool(true),
            Val::Num(Dec::zero()),
            Val::Str(String::new()),
            Val::Arr(vec![]),
            Val::Obj(vec![]),
            Val::Arr(vec![v.clone()]),
        ];
        let o = s.pick(&opts).clone();
        if o.ty() != v.ty() {
            return o;
        }
    }
    match v {
        Val::Null => Val::Bool(false),
        Val::Bool(b) => Val::Bool(!b),
        Val::Num(d) => {
            let mut e = d.clone();
            if e.is_zero() {
                return Val::Num(Dec::from_i64(1));
            }
            match s.raw(3) {
                0 => e.neg = !e.neg,
                1 => {
                    let i = s.below(e.digits.len());
                    // stays canonical: never a leading or trailing zero
                    e.digits[i] = if e.digits[i] == 9 { 1 } else { e.digits[i] + 1 };
                }
                2 => {
                    let m = e.magnitude();
                    e.exp += if m > 0 { -1 } else { 1 };
                }
                _ => {
                    if e.digits.len() < 38 && e.exp > -80 {
                        e.digits.push(1);
                        e.exp -= 1;
                    } else {
                        e.neg = !e.neg;
                    }
                }
            }
            Val::Num(e)
        }
        Val::Str(t) => {
            let mut c: Vec<char> = t.chars().collect();
            if c.is_empty() {
                return Val::Str("a".into());
            }
            let i = spot(s, c.len());
            match s.raw(3) {
                0 => c[i] = if c[i] == 'a' { 'b' } else { 'a' },
                1 => {
                    c.remove(i);
                }
                2 => c.insert(i, if s.chance(1, 2) { '\0' } else { 'a' }),
                _ => c.push(' '),
            }
            let n: String = c.into_iter().collect();
            if &n == t {
                Val::Str(format!("{}!", t))
            } else {
                Val::Str(n)
            }
        }
        Val::Arr(a) => {
            let mut a = a.clone();
            match s.raw(3) {
                0 => a.push(Val::Null),
                1 if !a.is_empty() => {
                    let i = s.below(a.len());
                    a.remove(i);
                }
                2 if a.len() > 1 => {
                    let i = s.below(a.len() - 1);
                    if a[i].canon() != a[i + 1].canon() {
                        a.swap(i, i + 1);
                    } else {
                        a.pop();
                    }
                }
                _ => a.insert(0, Val::Bool(true)),
            }
            Val::Arr(a)
        }
        Val::Obj(m) => {
            let mut m = m.clone();
            let fresh = |m: &Vec<(String, Val)>, k: String| {
                let mut k = k;
                while m.iter().any(|x| x.0 == k) {
                    k.push('q');
                }
                k
            };
            match s.raw(3) {
                0 => {
                    let k = gen_key(s, 12);
                    let k = fresh(&m, k);
                    m.push((k, Val::Null));
                }
                1 if !m.is_empty() => {
                    let i = s.below(m.len());
                    m.remove(i);
                }
                2 if !m.is_empty() => {
                    // same-length different key
                    let i = s.below(m.len());
                    let old = m[i].0.clone();
                    let mut k: String = old.chars().map(|c| c).collect();
                    if k.is_ascii() && !k.is_empty() {
                        let p = spot(s, k.len());
                        let mut b = k.into_bytes();
                        b[p] = if b[p] == b'm' { b'n' } else { b'm' };
                        k = String::from_utf8(b).unwrap();
                    } else {
                        k.push('q');
                    }
                    let k = fresh(&m, k);
                    m[i].0 = k;
                }
                _ => {
                    // swap two values
                    if m.len() > 1 {
                        let i = s.below(m.len() - 1);
                        if m[i].1.canon() != m[i + 1].1.canon() {
                            let t = m[i].1.clone();
                            m[i].1 = m[i + 1].1.clone();
                            m[i + 1].1 = t;
                            return Val::Obj(m);
                        }
                    }
                    let k = fresh(&m, "w".into());
                    m.push((k, Val::Bool(true)));
                }
            }
            Val::Obj(m)
        }
    }
}
