//! C25: what a refusal says is true.
use super::*;
use crate::drive::*;
use crate::read::{self, typed_yason, Got};
use std::str::FromStr;
use yason::*;
use yvbase::engine::{clip, hash_bytes};
use yvbase::json;
use yvbase::model::TYPES;
use yvbase::path::{gen_steps, gen_text, mutate_text, recognise, render};
use yvbase::run::*;

// ---- paths

/// whether some path begins with this
fn viable(x: &str) -> bool {
    const ENDS: [&str; 12] = ["", "$", "]", "0]", "a", "\"", "n\"", "ast]", "st]", "t]", "o0]", ")"];
    ENDS.iter().any(|e| recognise(&format!("{}{}", x, e)).is_some())
}
fn ends_well(x: &str, ends: &[&str]) -> bool {
    ends.iter().any(|e| recognise(&format!("{}{}", x, e)).is_some())
}
fn ws(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\x0c' | b'\r')
}

/// how much of the text begins some path
fn good(t: &str) -> usize {
    let at: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    let (mut a, mut b) = (0, at.len() - 1);
    // the beginning of a beginning is one too
    while a < b {
        let m = a + (b - a).div_ceil(2);
        if viable(&t[..at[m]]) {
            a = m;
        } else {
            b = m - 1;
        }
    }
    at[a]
}

fn position(s: &mut Src, t: &str) -> R {
    let Err(e) = PathExpression::from_str(t) else {
        s.label("accepted");
        return Ok(());
    };
    if recognise(t).is_some() {
        return Ok(());
    }
    s.count(hash_bytes(t.as_bytes()));
    let m = e.to_string();
    let Some((why, p)) = m.rsplit_once(" at position ").and_then(|(w, p)| Some((w, p.trim().parse::<usize>().ok()?))) else {
        return Err(format!("{:?}: the error does not tell a position: {}", clip(t, 300), m));
    };
    let v = good(t);
    let at = || format!("{:?} can be continued to a path up to byte {} of {}; the error says: {}", clip(t, 300), v, t.len(), m);
    if p > t.len() {
        return Err(format!("{}: beyond the text", at()));
    }
    let b = t.as_bytes();
    let mut seen = p == v || p == v + 1;
    if p > v + 1 {
        // a number is read to its end before it is judged, and so are the brackets behind a name
        let mid = &b[v..p];
        let number = v > 0 && b[v - 1].is_ascii_digit() && mid.iter().all(|c| c.is_ascii_digit()) && b.get(p).map_or(true, |c| !c.is_ascii_digit());
        let inner: Vec<u8> = mid.iter().copied().filter(|c| !ws(*c)).collect();
        seen |= number || inner == b"(" || inner == b"()";
    }
    // a word is told by where it begins
    seen |= p < v && ["last", "to"].iter().any(|w| w.as_bytes().starts_with(&b[p..v]));
    if !seen {
        return Err(format!("{}: elsewhere", at()));
    }
    let whole = v == t.len();
    let before = t.get(..v).unwrap_or("");
    let last = before.bytes().rev().find(|c| !ws(*c));
    let fits = match why {
        "path must start with a dollar sign ($) character" => !t.trim_start_matches(' ').starts_with('$'),
        "missing square bracket in array step" => ends_well(before, &["]", "0]", "st]", "t]", "ast]", "o0]"]) && recognise(before).is_none(),
        "array step contains unexpected characters" => ends_well(before, &["0]", "st]", "t]", "ast]", "o0]"]),
        "array subscript too long" => p > 0 && b[p - 1].is_ascii_digit() && {
            let d: String = t[..p].chars().rev().take_while(|c| c.is_ascii_digit()).collect();
            let d: String = d.chars().rev().collect();
            d.trim_start_matches('0').len() > 10 || d.parse::<u128>().map_or(true, |n| n > 2_147_483_647)
        },
        "empty array subscript" => last == Some(b'[') && b[v..].iter().find(|c| !ws(**c)) == Some(&b']'),
        "invalid escape sequence" => before.ends_with('\\') && ends_well(before, &["n\""]),
        "unclosed quoted step" => whole && ends_well(before, &["\""]),
        "key step contains unexpected characters" => last == Some(b'.') && ends_well(before, &["a"]),
        "invalid function at the end of path" => t[..p].contains('('),
        "unexpected characters after end of path" | "invalid character at start of step" => !whole && recognise(before).is_some(),
        _ => {
            s.label("a reason in other words");
            true
        }
    };
    if !fits {
        return Err(format!("{}: that is not what is wrong", at()));
    }
    s.label(match (whole, p.wrapping_sub(v)) {
        (true, _) => "the text ends too early",
        _ if p < v => "position: the beginning of the word",
        (_, 0) => "position: the first byte that fits nothing",
        (_, 1) => "position: just after the first byte that fits nothing",
        _ => "position: after the number or brackets",
    });
    Ok(())
}

fn positions(s: &mut Src) -> R {
    const T: [&str; 18] = ["", ".", "[", "]", "*", "a", "0", "last", "to", "-", ",", "\"", "(", ")", " ", "\\", "9999999999", "size"];
    let mut t = String::from(["$", " $", "  ", "a"][s.raw(3) as usize]);
    let n = if !t.contains('$') {
        1
    } else if s.thorough {
        5
    } else {
        4
    };
    for _ in 0..n {
        let k = s.raw(T.len() as u64 - 1) as usize;
        if k == 0 {
            break;
        }
        t.push_str(T[k]);
    }
    if !s.mine() {
        return Ok(());
    }
    s.note(|| format!("{:?}", t));
    position(s, &t)
}
fn edited_paths(s: &mut Src) -> R {
    let t = match s.weighted(&[60, 25, 15]) {
        0 => {
            let v = path::path_doc(s);
            let steps = gen_steps(s, &v, true);
            let w = s.chance(1, 2);
            let mut t = render(s, &steps, w);
            for _ in 0..1 + s.below(2) {
                t = mutate_text(s, &t);
            }
            t
        }
        1 => gen_text(s),
        _ => {
            // a long beginning
            let unit = *s.pick(&[".a", "[0]", "[0,1]", "..b", ".*", "[*]", ".\"k\u{e9}\"", " "]);
            let n = s.small(3_000);
            let bad = *s.pick(&["]", "x", "\"", "...", "[1", "[1 ", ".\"\\", ".\"\u{20ac}\\\u{20ac}", ".size(", ".siz()", ".a ( )", "[last-", "[0 to 99999999999999999999999 ]", "[007", "[0000000002147483648]", "\u{20ac}"]);
            let more = *s.pick(&["", " ", ".a", "]", "$"]);
            format!("${}{}{}", unit.repeat(n), bad, more)
        }
    };
    s.note(|| format!("{:?}", clip(&t, 300)));
    position(s, &t)
}

/// malformed far behind the start
fn long_paths(s: &mut Src) -> R {
    let unit = *s.pick(&[".a", "[0]", "[0,1]", "..b", ".*", "[*]", ".\"k\u{e9}\"", " ", "[last - 1 to 7]", ".\"a long name, 32 bytes of it, yes\""]);
    let n = s.wide(60_000);
    let bad = *s.pick(&["]", "x", "\"", "...", "[1", "[1 ", ".\"\\", ".size(", ".siz()", "[last-", "[0 to 99999999999999999999999 ]", "[0000000002147483648]", "\u{20ac}", ".\"never closed"]);
    let t = match s.raw(3) {
        0 => format!("$.\"{}\"{}", unit.replace('"', "").repeat(n), bad),
        1 => format!("$[{}0{}", "0, ".repeat(n), bad),
        _ => format!("${}{}", unit.repeat(n), bad),
    };
    s.label_if(t.len() > 70_000, "longer than 70000 bytes");
    s.note(|| format!("{} bytes ending in {:?}, {} times {:?}", t.len(), bad, n, unit));
    position(s, &t)
}

// ---- readers

fn says(e: &dyn std::fmt::Display, words: &[String], what: &dyn Fn() -> String) -> R {
    let t = e.to_string();
    for w in words {
        let found = if w.bytes().all(|c| c.is_ascii_digit()) {
            t.split(|c: char| !c.is_ascii_digit()).any(|x| x == w)
        } else {
            t.to_lowercase().contains(&w.to_lowercase())
        };
        if !found {
            return Err(format!("{}: the error does not mention {}: {}", what(), w, t));
        }
    }
    Ok(())
}

fn readers(s: &mut Src) -> R {
    let v = any_doc(s);
    let d = build(s, &v)?;
    fn node(s: &mut Src, y: &Yason, v: &Val) -> R {
        for t in TYPES {
            if let Got::Err(e) = typed_yason(y, t) {
                match &e {
                    YasonError::UnexpectedType { expected, actual } if t != v.ty() && *expected == read::dt(t) && *actual == read::dt(v.ty()) => {
                        says(&e, &[t.name().into(), v.ty().name().into()], &|| format!("{} as {}", v.ty().name(), t.name()))?
                    }
                    e => return Err(format!("{} read as {}: {:?}", v.ty().name(), t.name(), e)),
                }
            }
        }
        match v {
            Val::Arr(a) => {
                let x = y.array().map_err(|e| e.to_string())?;
                for i in [a.len(), a.len() + 1 + s.small(70_000), (1 << 16) + a.len(), (1 << 32) + s.below(a.len() + 1), usize::MAX / 5 + s.small(9), usize::MAX] {
                    read::check_index(&x, i, a, &read::FULL, "")?;
                }
                if !a.is_empty() {
                    let i = s.below(a.len());
                    read::check_index(&x, i, a, &read::FULL, "")?;
                    if let Ok(Value::Array(z)) = x.get(i) {
                        node(s, z.yason(), &a[i])?;
                    }
                }
            }
            Val::Obj(m) if !m.is_empty() => {
                let x = y.object().map_err(|e| e.to_string())?;
                let i = s.below(m.len());
                let k = &m[i].0;
                for t in TYPES {
                    if t == m[i].1.ty() {
                        continue;
                    }
                    let r = match t {
                        yvbase::model::Ty::Object => x.object(k).map(|_| ()),
                        yvbase::model::Ty::Array => x.array(k).map(|_| ()),
                        yvbase::model::Ty::String => x.string(k).map(|_| ()),
                        yvbase::model::Ty::Number => x.number(k).map(|_| ()),
                        yvbase::model::Ty::Bool => x.bool(k).map(|_| ()),
                        yvbase::model::Ty::Null => continue,
                    };
                    match r {
                        Err(e @ YasonError::UnexpectedType { .. }) => says(&e, &[t.name().into(), m[i].1.ty().name().into()], &|| format!("member {:?}", clip(k, 50)))?,
                        r => return Err(format!("member {:?}, a {}, as {}: {:?}", clip(k, 50), m[i].1.ty().name(), t.name(), r)),
                    }
                }
                if let Ok(Some(z)) = x.get(k) {
                    match z {
                        Value::Object(z) => node(s, z.yason(), &m[i].1)?,
                        Value::Array(z) => node(s, z.yason(), &m[i].1)?,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    node(s, d.yason(), &v)
}

// ---- builders

fn counts(s: &mut Src) -> R {
    let declared = match s.weighted(&[60, 30, 10]) {
        0 => s.small(12),
        1 => *s.pick(&[127usize, 128, 200, 255, 256, 257, 300, 511, 512, 1000]),
        _ => *s.pick(&[16_384usize, 32_767, 32_768, 65_279, 65_280, 65_534, 65_535]),
    };
    let pushed = match s.raw(3) {
        0 => s.below(declared + 1),
        1 => declared + 1 + s.small(3),
        2 => declared.saturating_sub(1 + s.small(3)),
        _ => (declared ^ (1 << s.below(16))).min(65_535),
    };
    let (obj, kind, inner) = (s.chance(1, 2), s.raw(2), s.raw(2));
    if pushed > 5_000 && s.chance(2, 3) {
        return Ok(());
    }
    s.note(|| format!("{} of {} declared elements, {} {} {}", pushed, declared, obj, kind, inner));
    s.count((declared as u64) << 32 | (pushed as u64) << 8 | (obj as u64) << 6 | kind << 3 | inner);
    let e = |e: BuildError| format!("{:?}", e);
    let n = declared as u16;
    fn fill_o(b: &mut dyn ObjB, n: usize, inner: u64) -> B<()> {
        for i in 0..n {
            let k = format!("{:06}", i);
            match inner {
                0 => b.o_null(&k)?,
                1 => b.o_bool(&k, true)?,
                _ => b.o_str(&k, "x")?,
            }
        }
        Ok(())
    }
    fn fill_a(b: &mut dyn ArrB, n: usize, inner: u64) -> B<()> {
        for _ in 0..n {
            match inner {
                0 => b.a_null()?,
                1 => b.a_bool(true)?,
                _ => b.a_str("x")?,
            }
        }
        Ok(())
    }
    let mut v = vec![9u8; s.small(20)];
    // the pushes themselves may be refused for the same reason
    let r: B<()> = (|| match (obj, kind) {
        (true, 0) => {
            let mut b = ObjectBuilder::try_new(n, true)?;
            fill_o(&mut b, pushed, inner)?;
            b.finish().map(|_| ())
        }
        (true, 1) => {
            let mut b = ObjectRefBuilder::try_new(&mut v, n, true)?;
            fill_o(&mut b, pushed, inner)?;
            b.finish().map(|_| ())
        }
        (true, _) => {
            let mut o = ArrayBuilder::try_new(2)?;
            let mut b = o.push_object(n, true)?;
            fill_o(&mut b, pushed, inner)?;
            b.finish().map(|_| ())
        }
        (false, 0) => {
            let mut b = ArrayBuilder::try_new(n)?;
            fill_a(&mut b, pushed, inner)?;
            b.finish().map(|_| ())
        }
        (false, 1) => {
            let mut b = ArrayRefBuilder::try_new(&mut v, n)?;
            fill_a(&mut b, pushed, inner)?;
            b.finish().map(|_| ())
        }
        (false, _) => {
            let mut o = ObjectBuilder::try_new(2, false)?;
            let mut b = o.push_array("a", n)?;
            fill_a(&mut b, pushed, inner)?;
            b.finish().map(|_| ())
        }
    })();
    if pushed == declared {
        return r.map_err(e);
    }
    s.label(if pushed > declared { "too many" } else { "too few" });
    match r {
        Err(e @ BuildError::InconsistentElementCount { expected, actual }) => {
            // the number pushed need not be counted any further than it can be told
            if expected as usize != declared || (pushed <= 65_535 && actual as usize != pushed) || (pushed > 65_535 && actual == expected && expected != 65_535) {
                return Err(format!("{} pushes for {} elements: {:?}", pushed, declared, e));
            }
            if pushed <= 65_535 {
                says(&e, &[declared.to_string(), pushed.to_string()], &|| format!("{} pushes for {} elements", pushed, declared))?;
            }
            Ok(())
        }
        r => Err(format!("{} pushes for {} elements: {:?}", pushed, declared, r)),
    }
}

fn keys(s: &mut Src) -> R {
    let n = match s.raw(2) {
        0 => 65_536 + s.small(4_000),
        1 => *s.pick(&[65_536usize, 65_537, 65_791, 65_792, 131_071, 131_072, 131_073, 196_608, 1 << 20]),
        _ => 65_535 - s.small(3),
    };
    let k = if s.chance(1, 2) { "k".repeat(n) } else { format!("{}{}", if n % 2 == 1 { "k" } else { "" }, "\u{e9}".repeat(n / 2)) };
    let (route, sorted, kind) = (s.raw(7), s.chance(1, 2), s.chance(1, 2));
    s.note(|| format!("a key of {} bytes, route {}, {} {}", n, route, sorted, kind));
    s.count((n as u64) << 8 | route << 2 | (sorted as u64) << 1 | kind as u64);
    fn push(b: &mut dyn ObjB, k: &str, route: u64) -> B<()> {
        match route {
            0 => b.o_null(k),
            1 => b.o_bool(k, false),
            2 => b.o_str(k, "text"),
            3 => b.o_num(k, &Number::ONE),
            4 => b.o_obj(k, 0, true).map(|_| ()),
            _ => b.o_arr(k, 0).map(|_| ()),
        }
    }
    let mut v = Vec::new();
    let r = if route >= 6 {
        let t = format!("[{{\"a\":1,\"{}\":{{}}}}]", k);
        if route == 6 {
            YasonBuf::parse(&t).map(|_| ())
        } else {
            Yason::parse_to(&mut v, &t).map(|_| ())
        }
    } else if kind {
        ObjectBuilder::try_new(1, sorted).and_then(|mut b| push(&mut b, &k, route))
    } else {
        ObjectRefBuilder::try_new(&mut v, 1, sorted).and_then(|mut b| push(&mut b, &k, route))
    };
    match r {
        Ok(()) if n <= 65_535 => Ok(()),
        Err(e @ BuildError::StringTooLong(m)) if n > 65_535 && m == n => says(&e, &[n.to_string()], &|| format!("a key of {} bytes", n)),
        r => Err(format!("a key of {} bytes: {:?}", n, r)),
    }
}

/// builders that are too deep, or not at their turn
fn turns(s: &mut Src) -> R {
    let depth = if s.chance(1, 2) { 100 } else { 1 + s.below(99) };
    let route = s.raw(1);
    s.note(|| format!("{} levels, route {}", depth, route));
    s.count((depth as u64) << 1 | route);
    fn down(b: ArrayRefBuilder<'_>, left: usize, r: &mut Option<String>) {
        let mut b = b;
        if left > 1 {
            match b.push_array(1) {
                Ok(c) => down(c, left - 1, r),
                Err(e) => *r = Some(format!("level {} from the end: {:?}", left, e)),
            }
            return;
        }
        // the deepest level
        for i in 0..2 {
            let x = if i == 0 { b.push_array(0).map(|_| ()) } else { b.push_object(0, true).map(|_| ()) };
            *r = Some(match x {
                Ok(()) => "accepted".into(),
                Err(e @ BuildError::NestedTooDeeply) => {
                    if e.to_string().is_empty() {
                        "no text".into()
                    } else {
                        "too deep".into()
                    }
                }
                Err(BuildError::InnerUncompletedError) => "unfinished".into(),
                Err(e) => format!("{:?}", e),
            });
            if i == 0 && r.as_deref() == Some("accepted") {
                // it was not finished: nothing else goes, and that is why
                let mut w = Vec::new();
                for x in [b.push_null().map(|_| ()), b.push_string("x").map(|_| ()), b.push_number(Number::ONE).map(|_| ()), b.push_object(1, false).map(|_| ()), b.push_array(0).map(|_| ())] {
                    w.push(matches!(x, Err(BuildError::InnerUncompletedError)));
                }
                w.push(matches!(b.finish(), Err(BuildError::InnerUncompletedError)));
                if w.contains(&false) {
                    *r = Some(format!("over an unfinished one: {:?}", w));
                }
                return;
            }
        }
    }
    let mut v = Vec::new();
    let mut r = None;
    down(ArrayRefBuilder::try_new(&mut v, 1).map_err(|e| e.to_string())?, depth, &mut r);
    let want = if depth == 100 { "too deep" } else { "accepted" };
    s.label(want);
    match r {
        Some(r) if r == want => Ok(()),
        r => Err(format!("a container in level {}: {:?} instead of {}", depth + 1, r, want)),
    }
}

// ---- JSON texts

fn texts(s: &mut Src) -> R {
    let t = match s.weighted(&[50, 30, 20]) {
        0 => accept::any_text(s),
        1 => accept::nested(s),
        _ => accept::limits(s),
    };
    s.note(|| format!("text: {}", clip(&t, 600)));
    if accept::outside_domain(&t) || json::rough_depth(&t) > 550 {
        return Ok(());
    }
    let mut v = Vec::new();
    let r = if s.chance(1, 2) { YasonBuf::parse(&t).map(|_| ()) } else { Yason::parse_to(&mut v, &t).map(|_| ()) };
    let Err(e) = r else { return Ok(()) };
    s.count(hash_bytes(t.as_bytes()));
    if e.to_string().is_empty() {
        return Err("the error has no text".into());
    }
    let p = json::parse(&t);
    if p.as_ref().map_or(false, |p| p.marker) {
        return Ok(());
    }
    let (mut key, mut many, mut num) = (false, false, false);
    if let Some(p) = &p {
        p.val.walk(&mut |x| match x {
            Val::Obj(m) => {
                key |= matches!(e, BuildError::StringTooLong(n) if n > 65_535 && m.iter().any(|x| x.0.len() == n));
                many |= matches!(e, BuildError::TooManyElements(n) if n > 65_535 && m.len() == n);
            }
            Val::Arr(a) => many |= matches!(e, BuildError::TooManyElements(n) if n > 65_535 && a.len() == n),
            Val::Num(_) => num |= json::stored(x).is_none(),
            _ => {}
        });
    }
    let (fits, label) = match (&p, &e) {
        (None, BuildError::JsonError(_)) => (true, "not JSON"),
        (None, _) => (false, ""),
        (Some(p), BuildError::JsonError(_)) => (p.any_depth > 126, "nested too deep for the JSON library"),
        (Some(p), BuildError::NestedTooDeeply) => (p.any_depth > 100, "nested too deep"),
        (_, BuildError::NumberError(NumberError::Overflow)) => (num, "number too large"),
        (_, BuildError::StringTooLong(n)) => (key && e.to_string().contains(&n.to_string()), "key too long"),
        (_, BuildError::TooManyElements(n)) => (many && e.to_string().contains(&n.to_string()), "too many elements"),
        _ => (false, ""),
    };
    s.label(label);
    if !fits {
        return Err(format!("refused for a reason that does not hold: {:?}", e));
    }
    Ok(())
}

// ---- the rest

fn results(s: &mut Src) -> R {
    // more results than an array can hold, of which there are n
    let per = 256 + s.below(3);
    let rows = 256 + s.below(3);
    let extra = s.small(5);
    let (bare, route) = (s.chance(1, 2), s.raw(1));
    let n = per * rows + extra;
    s.note(|| format!("{} results", n));
    s.count((n as u64) << 2 | (bare as u64) << 1 | route);
    let mut all: Vec<Val> = (0..rows).map(|_| Val::Arr(vec![Val::Bool(true); per])).collect();
    all.push(Val::Arr(vec![Val::Null; extra]));
    let y = owned(&straight(&Val::Arr(all))).map_err(|e| e.to_string())?;
    let p = PathExpression::from_str(if route == 0 { "$[*][*]" } else { "$[0 to last][0 to last]" }).map_err(|e| e.to_string())?;
    let mut buf = Vec::new();
    let r = p.query(&y, !bare, None, Some(&mut buf)).map(|_| ());
    match r {
        Err(e @ YasonError::MultiValuesWithoutWrapper) if bare => says(&e, &["multiple".into()], &|| "many results".into()),
        Err(YasonError::BuildError(e @ BuildError::TooManyElements(m))) if !bare && n > 65_535 && m == n => {
            let e = YasonError::BuildError(e);
            says(&e, &[n.to_string()], &|| format!("{} results", n))
        }
        Ok(()) if !bare && n <= 65_535 => Ok(()),
        r => Err(format!("{} results: {:?}", n, r)),
    }
}

/// every byte as a type, and every conversion of one error into another
fn kinds(s: &mut Src) -> R {
    let b = s.raw(255) as u8;
    if !s.mine() {
        return Ok(());
    }
    s.count(b as u64);
    s.note(|| format!("type byte {}", b));
    let known = TYPES.iter().find(|t| u8::from(read::dt(**t)) == b);
    match (DataType::try_from(b), known) {
        (Ok(t), Some(k)) if t == read::dt(*k) && u8::from(t) == b && t.name() == k.name() && t.to_string().eq_ignore_ascii_case(k.name()) => {}
        (Err(e), None) => says(&e, &[b.to_string()], &|| format!("type byte {}", b))?,
        (r, _) => return Err(format!("type byte {}: {:?}", b, r)),
    }
    let y = unsafe { Yason::new_unchecked(std::slice::from_ref(&b)) };
    match (y.data_type(), known) {
        (Ok(t), Some(k)) if t == read::dt(*k) => {}
        (Err(e @ YasonError::InvalidDataType(x)), None) if x == b => says(&e, &[b.to_string()], &|| format!("type byte {}", b))?,
        (r, _) => return Err(format!("type byte {}: {:?}", b, r)),
    }
    let n = b as usize * 1_000_003 + 70_000;
    let reserve = Vec::<u8>::new().try_reserve(usize::MAX).unwrap_err();
    let all: Vec<(BuildError, Vec<String>)> = vec![
        (BuildError::InnerUncompletedError, vec![]),
        (BuildError::InconsistentElementCount { expected: n as u16, actual: b as u16 }, vec![(n as u16).to_string(), b.to_string()]),
        (BuildError::StringTooLong(n), vec![n.to_string()]),
        (BuildError::NumberError(NumberError::Overflow), vec!["overflow".into()]),
        (BuildError::NestedTooDeeply, vec![]),
        (BuildError::TooManyElements(n), vec![n.to_string()]),
        (BuildError::TotalSizeTooLarge(n), vec![n.to_string()]),
        (BuildError::TryReserveError(reserve), vec![]),
    ];
    for (e, words) in all {
        let (shown, memory) = (e.to_string(), matches!(e, BuildError::TryReserveError(_)));
        let debug = format!("{:?}", e);
        says(&e, &words, &|| debug.clone())?;
        let y = YasonError::from(e);
        if y.to_string() != shown || shown.is_empty() || matches!(y, YasonError::TryReserveError(_)) != memory {
            return Err(format!("{} becomes {:?}: {}", debug, y, y));
        }
        let f = FormatError::from(y);
        if f.to_string() != shown {
            return Err(format!("{} becomes {:?}: {}", debug, f, f));
        }
    }
    Ok(())
}

pub static C25: Prop = Prop {
    id: "C25",
    rule: "a case counts when something is refused in it (or, for readers, when its document holds at least two values or a non-empty scalar); distinct by text, document or parameters",
    subs: &[
        Sub { name: "positions", f: positions, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "paths", f: edited_paths, mode: Mode::Random, quick: 120_000, thorough: 4_000_000, profiles: BOTH },
        Sub { name: "long-paths", f: long_paths, mode: Mode::Random, quick: 400, thorough: 20_000, profiles: BOTH },
        Sub { name: "readers", f: readers, mode: Mode::Random, quick: 30_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "counts", f: counts, mode: Mode::Random, quick: 20_000, thorough: 600_000, profiles: BOTH },
        Sub { name: "keys", f: keys, mode: Mode::Random, quick: 6_000, thorough: 200_000, profiles: BOTH },
        Sub { name: "turns", f: turns, mode: Mode::Random, quick: 8_000, thorough: 200_000, profiles: BOTH },
        Sub { name: "texts", f: texts, mode: Mode::Random, quick: 60_000, thorough: 3_000_000, profiles: BOTH },
        Sub { name: "results", f: results, mode: Mode::Random, quick: 200, thorough: 6_000, profiles: BOTH },
        Sub { name: "kinds", f: kinds, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
    ],
    assumptions: &[
        "a position is right when it is the first byte that no path continues with, the one behind it, the beginning of the word it is in, or the end of the number or brackets it is in",
        "reasons of path errors are judged by the words they have now; other words are not judged",
        "the line and column in an error of the JSON library are that library's",
    ],
    known: no_known,
};
