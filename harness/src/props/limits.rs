//! C16: content at and beyond the limits of the format.
use super::json::parse_all;
use super::misuse::huge;
use super::text::text;
use super::*;
use crate::drive::*;
use crate::read::*;
use std::str::FromStr;
use yason::*;
use yvbase::bnf;
use yvbase::dec::Dec;
use yvbase::json;
use yvbase::run::*;

fn e<E: std::fmt::Display>(what: &'static str) -> impl Fn(E) -> String {
    move |x| format!("{}: {}", what, x)
}

fn reads_back(y: &Yason, v: &Val, what: &str) -> R {
    let (got, _) = bnf::decode(y.as_bytes(), &num_bytes).map_err(|e| format!("{}: malformed: {}", what, e))?;
    if got.canon() != v.canon() {
        return Err(format!("{}: the bytes hold other content than was stored", what));
    }
    check_doc(y, v, &LIGHT).map_err(|e| format!("{}: {}", what, e))
}

/// `ok`: the content is within the limits
fn judge<Y: AsRef<Yason>, E: std::fmt::Display>(r: Result<Y, E>, ok: bool, v: &Val, what: &str) -> R {
    match r {
        Ok(y) if ok => reads_back(y.as_ref(), v, what),
        Ok(y) => {
            let held = bnf::decode(y.as_ref().as_bytes(), &num_bytes).map(|x| x.0.canon() == v.canon());
            Err(format!("{}: content beyond a limit is accepted (the document {})", what, match held {
                Ok(true) => "holds it all the same",
                Ok(false) => "holds something else",
                Err(_) => "is malformed",
            }))
        }
        Err(x) if ok => Err(format!("{}: refused although within the limits: {}", what, x)),
        Err(_) => Ok(()),
    }
}

// ---- keys ---------------------------------------------------------------------------------------

const KEY_LENS: [usize; 12] = [255, 256, 32_767, 32_768, 65_533, 65_534, 65_535, 65_536, 65_537, 70_000, 131_071, 131_072];

fn key_of(n: usize, style: u64) -> String {
    match style {
        0 => "k".repeat(n),
        1 => {
            let mut k = "é".repeat(n / 2);
            if n % 2 == 1 {
                k.push('x');
            }
            k
        }
        _ => {
            // distinct from the first only at the very end
            let mut k = "k".repeat(n - 1);
            k.push('a');
            k
        }
    }
}

fn keys(s: &mut Src) -> R {
    let n = *s.pick(&KEY_LENS);
    let style = s.raw(2);
    let kind = s.raw(5);
    let place = s.raw(3);
    if !s.mine() {
        return Ok(());
    }
    if !s.thorough && (n < 60_000 || n > 66_000) && (style > 0 || kind % 2 == 1) {
        return Ok(());
    }
    let key = key_of(n, style);
    let value = match kind {
        0 => Val::Null,
        1 => Val::Bool(true),
        2 => Val::Num(Dec::from_i64(-12345)),
        3 => Val::Str("value".into()),
        4 => Val::Obj(vec![("in".into(), Val::Null)]),
        _ => Val::Arr(vec![Val::Bool(false)]),
    };
    let mut m = vec![(key.clone(), value.clone())];
    if place != 0 {
        m.insert(0, ("a".into(), Val::Num(Dec::from_i64(1))));
        // another of the same length
        if style == 0 && n <= 65_535 {
            m.push((format!("{}j", "k".repeat(n - 1)), Val::Bool(true)));
        }
    }
    let v = match place {
        0 | 1 => Val::Obj(m),
        2 => Val::Arr(vec![Val::Null, Val::Obj(m)]),
        _ => Val::Obj(vec![("outer".into(), Val::Arr(vec![Val::Obj(m), Val::Str("after".into())]))]),
    };
    let ok = n <= 65_535;
    s.note(|| format!("a key of {} bytes (style {}), value kind {}, place {}", n, style, kind, place));
    s.count(n as u64 * 1000 + style * 100 + kind * 10 + place);
    s.label(if ok { "within the limit" } else { "beyond the limit" });
    // builders: every flag and receiver
    for sorted in [false, true] {
        fn flag(p: Plan, sorted: bool) -> Plan {
            match p {
                Plan::Obj(_, mut m) => {
                    m = m.into_iter().map(|(k, x)| (k, flag(x, sorted))).collect();
                    if sorted {
                        m.sort_by(|a, b| yvbase::model::key_cmp(&a.0, &b.0));
                    }
                    Plan::Obj(sorted, m)
                }
                Plan::Arr(a) => Plan::Arr(a.into_iter().map(|x| flag(x, sorted)).collect()),
                p => p,
            }
        }
        let p = flag(straight(&v), sorted);
        judge(owned(&p), ok, &v, "owned builder")?;
        let mut vec = vec![0x55u8; 3];
        judge(into_vec(&p, &mut vec), ok, &v, "builder into a vector")?;
        if vec[..3] != [0x55; 3] {
            return Err("what the vector held is damaged".into());
        }
    }
    let t = json::compact(&v, &num_text);
    let r = parse_all(&t, b"xyz")?;
    if ok {
        let y = r.as_ref().map_err(e("parsing"))?;
        // as text, by lookup and by path
        if text(y, false)?.len() != t.len() {
            return Err("the text of a document with a long key has another length".into());
        }
        if place < 2 {
            let o = y.object().map_err(e("object"))?;
            check_key(&o, &key, Some(&value), &FULL, "$")?;
            let mut shorter = key.clone();
            shorter.pop();
            let mut other_end = shorter.clone();
            other_end.push('q');
            for other in [shorter, other_end, format!("{}q", key)] {
                check_key(&o, &other, None, &FULL, "$")?;
            }
            let p = PathExpression::from_str(&format!("$.\"{}\"", key)).map_err(e("path"))?;
            if !p.exists(y).map_err(e("exists"))? {
                return Err("a path with the long key finds nothing".into());
            }
        }
        // looked up by a key that is too long for any document
        let o = match &v {
            Val::Obj(_) => y.object().map_err(e("object"))?,
            _ => y.array().and_then(|a| a.object(1)).map_err(e("object"))?,
        };
        for extra in [65_536usize, 131_072] {
            let long = "k".repeat(n % 65_536 + extra);
            check_key(&o, &long, None, &FULL, "$")?;
        }
    }
    judge(r, ok, &v, "JSON text")
}

// ---- counts -------------------------------------------------------------------------------------

fn element(kind: u64, i: usize) -> Val {
    match kind {
        0 => Val::Null,
        1 => Val::Num(Dec::from_i64(i as i64)),
        2 => Val::Arr(vec![]),
        _ => Val::Str("x".into()),
    }
}

fn counts(s: &mut Src) -> R {
    let n = *s.pick(&[65_534usize, 65_535, 65_536, 65_537, 70_000, 131_071, 131_072, 131_073]);
    let kind = s.raw(3);
    let obj = s.raw(1) == 1;
    let place = s.raw(2);
    if !s.mine() {
        return Ok(());
    }
    if !s.thorough && ((n > 66_000 && (kind > 0 || n == 70_000)) || (place == 2 && kind > 1) || (crate_debug() && kind > 1)) {
        return Ok(());
    }
    let c = if obj {
        Val::Obj((0..n).map(|i| (i.to_string(), element(kind, i))).collect())
    } else {
        Val::Arr((0..n).map(|i| element(kind, i)).collect())
    };
    let v = match place {
        0 => c,
        1 => Val::Arr(vec![Val::Str("before".into()), c, Val::Bool(true)]),
        _ => Val::Obj(vec![("a".into(), Val::Arr(vec![])), ("member".into(), c)]),
    };
    let ok = n <= 65_535;
    s.note(|| format!("{} of {} elements, kind {}, place {}", if obj { "an object" } else { "an array" }, n, kind, place));
    s.count(n as u64 * 1000 + kind * 100 + obj as u64 * 10 + place);
    s.label(if ok { "within the limit" } else { "beyond the limit" });
    let t = json::compact(&v, &num_text);
    let r = parse_all(&t, b"")?;
    if let (true, Ok(y)) = (ok, &r) {
        if kind < 2 && text(y, false)?.len() != t.len() {
            return Err("the text of a large container has another length".into());
        }
    }
    judge(r, ok, &v, "JSON text")?;
    if ok {
        judge(owned(&straight(&v)), true, &v, "owned builder")?;
        let mut vec = vec![1u8; 5];
        judge(into_vec(&straight(&v), &mut vec), true, &v, "builder into a vector")?;
    }
    Ok(())
}
fn crate_debug() -> bool {
    yvbase::run::is_debug()
}

/// more members than can be counted, but not so many different ones
fn duplicates(s: &mut Src) -> R {
    let distinct = *s.pick(&[65_535usize, 65_536, 100]);
    let total = *s.pick(&[65_536usize, 70_000, 131_072]);
    if !s.mine() {
        return Ok(());
    }
    s.note(|| format!("an object text of {} members, {} distinct keys", total, distinct));
    s.count((distinct * total) as u64);
    let mut t = String::from("{");
    for i in 0..total {
        if i > 0 {
            t.push(',');
        }
        t.push_str(&format!("\"{}\":{}", i % distinct, i));
    }
    t.push('}');
    let real = distinct.min(total);
    let last = |k: usize| k + (total - 1 - k) / distinct * distinct;
    let v = Val::Obj((0..real).map(|k| (k.to_string(), Val::Num(Dec::from_i64(last(k) as i64)))).collect());
    judge(parse_all(&t, b"")?, real <= 65_535, &v, "JSON text with duplicates")
}

// ---- query results ------------------------------------------------------------------------------

fn results(s: &mut Src) -> R {
    let n = *s.pick(&[65_534usize, 65_535, 65_536, 65_537, 131_072, 131_073]);
    let shape = s.raw(2);
    let kind = s.raw(3);
    let own_buf = s.raw(1) == 1;
    if !s.mine() {
        return Ok(());
    }
    if !s.thorough && crate_debug() && kind > 1 {
        return Ok(());
    }
    s.note(|| format!("a query that selects {} values, shape {}, kind {}, query buffer {}", n, shape, kind, own_buf));
    s.count(n as u64 * 1000 + shape * 100 + kind * 10 + own_buf as u64);
    let (doc, path, want): (Val, String, Vec<Val>) = match shape {
        0 => {
            // a list of ranges over a short array
            let a: Vec<Val> = (0..256).map(|i| element(kind, i)).collect();
            let mut p = String::from("$[");
            let mut w = Vec::new();
            for _ in 0..n / 256 {
                p.push_str("0 to last, ");
                w.extend(a.iter().cloned());
            }
            let rest = n % 256;
            if rest > 0 {
                p.push_str(&format!("0 to {}]", rest - 1));
                w.extend(a[..rest].iter().cloned());
            } else {
                p.truncate(p.len() - 2);
                p.push(']');
            }
            (Val::Arr(a), p, w)
        }
        1 => {
            // the elements of several arrays
            let mut left = n;
            let mut i = 0;
            let mut outer = Vec::new();
            let mut w = Vec::new();
            while left > 0 {
                let k = left.min(40_000);
                let a: Vec<Val> = (0..k).map(|j| element(kind, i + j)).collect();
                w.extend(a.iter().cloned());
                outer.push(Val::Arr(a));
                i += k;
                left -= k;
            }
            (Val::Arr(outer), "$[*][*]".into(), w)
        }
        _ => {
            // members of many objects
            let mut outer = Vec::new();
            let mut w = Vec::new();
            let mut left = n;
            let mut i = 0;
            while left > 0 {
                let k = left.min(3_000);
                let m: Vec<Val> = (0..k).map(|j| Val::Obj(vec![("k".into(), element(kind, i + j))])).collect();
                for x in &m {
                    if let Val::Obj(m) = x {
                        w.push(m[0].1.clone());
                    }
                }
                outer.push((format!("m{:04}", outer.len()), Val::Arr(m)));
                i += k;
                left -= k;
            }
            (Val::Obj(outer), "$..k".into(), w)
        }
    };
    let y = owned(&straight(&doc)).map_err(e("building"))?;
    let p = PathExpression::from_str(&path).map_err(e("path"))?;
    let ok = n <= 65_535;
    s.label(if ok { "within the limit" } else { "beyond the limit" });
    // without a result document there is no limit
    let mut vals = Vec::new();
    let q = p.query(&y, true, if own_buf { Some(&mut vals) } else { None }, None).map_err(e("query"))?;
    let got: &[Value] = match &q {
        QueriedValue::Values(v) => v,
        QueriedValue::ValuesRef(v) => v,
        _ => return Err("a wrapped query without a result buffer gives another form".into()),
    };
    if got.len() != n {
        return Err(format!("{} values are selected instead of {}", got.len(), n));
    }
    for i in [0, 1, 255, 256, n / 2, 65_533, n - 1] {
        if i < n && content(&got[i])? != want[i] {
            return Err(format!("value {} is another one", i));
        }
    }
    if kind < 2 {
        let mut o = String::new();
        q.format_to(false, &mut o).map_err(e("format_to"))?;
        if o != json::compact(&Val::Arr(want.clone()), &num_text) {
            return Err("the text of the list of results is another one".into());
        }
    }
    if !p.exists(&y).map_err(e("exists"))? {
        return Err("existence is denied".into());
    }
    let c = PathExpression::from_str(&format!("{}.count()", path)).map_err(e("path"))?;
    let mut cb = Vec::new();
    match c.query(&y, true, None, Some(&mut cb)).map_err(e("count"))? {
        QueriedValue::Yason(y) if content_of(y)? == Val::Arr(vec![Val::Num(Dec::from_i64(n as i64))]) => {}
        _ => return Err("count() is wrong".into()),
    }
    // as a document
    let mut vals = Vec::new();
    let mut buf = vec![3u8; 10];
    let want = Val::Arr(want);
    match p.query(&y, true, if own_buf { Some(&mut vals) } else { None }, Some(&mut buf)) {
        Ok(QueriedValue::Yason(d)) => judge::<&Yason, String>(Ok(d), ok, &want, "result document")?,
        Ok(_) => return Err("a query with a result buffer gives another form".into()),
        Err(x) => judge::<&Yason, _>(Err(x), ok, &want, "result document")?,
    }
    Ok(())
}

// ---- strings ------------------------------------------------------------------------------------

const MAX: usize = 268_435_455;

fn header(n: usize) -> usize {
    match n {
        0..=127 => 1,
        128..=16_383 => 2,
        16_384..=2_097_151 => 3,
        _ => 4,
    }
}

fn same_string(got: &str, want: &str, what: &str) -> R {
    if got.len() != want.len() || got.as_bytes() != want.as_bytes() {
        return Err(format!("{}: a string of {} bytes is stored, {} come back", what, want.len(), got.len()));
    }
    Ok(())
}

/// one string through every producer
fn one_string(t: &str, route: u64) -> R {
    let ok = t.len() <= MAX;
    let n = t.len();
    let refused = |r: Result<(), BuildError>, what: &str| match r {
        Err(_) if !ok => Ok(()),
        Err(x) => Err(format!("{}: a string of {} bytes is refused: {}", what, n, x)),
        Ok(()) if ok => Ok(()),
        Ok(()) => Err(format!("{}: a string of {} bytes is accepted", what, n)),
    };
    match route {
        0 => {
            let r = Scalar::string(t);
            refused(r.as_ref().map(|_| ()).map_err(clone_err), "Scalar::string")?;
            if let Ok(y) = r {
                if y.as_bytes().len() != 1 + header(n) + n {
                    return Err(format!("a string of {} bytes takes {} bytes", n, y.as_bytes().len()));
                }
                same_string(y.string().map_err(e("string"))?, t, "Scalar::string")?;
            }
        }
        1 => {
            let mut v = vec![1u8, 2, 3];
            let r = Scalar::string_with_vec(t, &mut v);
            refused(r.as_ref().map(|_| ()).map_err(clone_err), "Scalar::string_with_vec")?;
            if let Ok(y) = r {
                same_string(y.string().map_err(e("string"))?, t, "Scalar::string_with_vec")?;
            }
            if v[..3] != [1, 2, 3] {
                return Err("what the vector held is damaged".into());
            }
        }
        2 => {
            let mut b = ObjectBuilder::try_new(if ok { 3 } else { 2 }, false).map_err(e("builder"))?;
            b.push_bool("first", true).map_err(e("push"))?;
            refused(b.push_string("s", t).map(|_| ()), "object push_string")?;
            b.push_number("last one", Number::from(7)).map_err(e("push"))?;
            let y = b.finish().map_err(e("finish"))?;
            let o = y.object().map_err(e("object"))?;
            if ok {
                same_string(o.string("s").map_err(e("string"))?.ok_or("the string member is lost")?, t, "object member")?;
            }
            if o.bool("first").map_err(e("bool"))? != Some(true) || o.number("last one").map_err(e("number"))? != Some(Number::from(7)) || o.len().map_err(e("len"))? != 2 + ok as usize {
                return Err("members around the string are changed".into());
            }
        }
        3 => {
            let mut v = vec![9u8; 2];
            let mut b = ArrayRefBuilder::try_new(&mut v, if ok { 4 } else { 3 }).map_err(e("builder"))?;
            b.push_null().map_err(e("push"))?;
            refused(b.push_string(t).map(|_| ()), "array push_string")?;
            b.push_string("after").map_err(e("push"))?;
            b.push_array(0).map_err(e("push"))?.finish().map_err(e("finish"))?;
            let y = b.finish().map_err(e("finish"))?;
            let a = y.array().map_err(e("array"))?;
            let k = ok as usize;
            if ok {
                same_string(a.string(1).map_err(e("string"))?, t, "array element")?;
            }
            if !a.is_null(0).map_err(e("is_null"))? || a.string(1 + k).map_err(e("string"))? != "after" || a.array(2 + k).and_then(|x| x.len()).map_err(e("array"))? != 0 {
                return Err("elements around the string are changed".into());
            }
        }
        4 => {
            // nested
            let mut b = ArrayBuilder::try_new(2).map_err(e("builder"))?;
            {
                let mut o = b.push_object(if ok { 2 } else { 1 }, true).map_err(e("push"))?;
                o.push_bool("b", false).map_err(e("push"))?;
                refused(o.push_string("c", t).map(|_| ()), "nested object push_string")?;
                o.finish().map_err(e("finish"))?;
            }
            b.push_bool(true).map_err(e("push"))?;
            let y = b.finish().map_err(e("finish"))?;
            let a = y.array().map_err(e("array"))?;
            let o = a.object(0).map_err(e("object"))?;
            if ok {
                same_string(o.string("c").map_err(e("string"))?.ok_or("the string member is lost")?, t, "nested member")?;
            }
            if o.bool("b").map_err(e("bool"))? != Some(false) || !a.bool(1).map_err(e("bool"))? {
                return Err("values around the string are changed".into());
            }
        }
        _ => {
            // JSON: only text without characters that need escapes
            let mut j = String::with_capacity(n + 20);
            j.push_str("[1,\"");
            if t.as_bytes().first() == Some(&0) {
                j.extend(std::iter::repeat_n("abcdefgh", n / 8));
                j.push_str(&"abcdefgh"[..n % 8]);
            } else {
                j.push_str(t);
            }
            j.push_str("\",{}]");
            let check = |r: Result<&Yason, BuildError>, what: &str| -> R {
                refused(r.as_ref().map(|_| ()).map_err(clone_err), what)?;
                if let Ok(y) = r {
                    let a = y.array().map_err(e("array"))?;
                    same_string(a.string(1).map_err(e("string"))?, &j[4..4 + n], what)?;
                    if a.len().map_err(e("len"))? != 3 || a.object(2).and_then(|o| o.len()).map_err(e("object"))? != 0 {
                        return Err(format!("{}: values around the string are changed", what));
                    }
                }
                Ok(())
            };
            let r = YasonBuf::parse(&j);
            check(r.as_ref().map(|y| &**y).map_err(clone_err), "parse")?;
            drop(r);
            let mut v = vec![4u8];
            check(Yason::parse_to(&mut v, &j), "parse_to")?;
        }
    }
    Ok(())
}
fn clone_err(x: &BuildError) -> BuildError {
    match x {
        BuildError::StringTooLong(n) => BuildError::StringTooLong(*n),
        _ => BuildError::NestedTooDeeply,
    }
}

fn strings(s: &mut Src) -> R {
    let n = *s.pick(&[0usize, 1, 126, 127, 128, 129, 255, 256, 16_382, 16_383, 16_384, 16_385, 32_768, 65_535, 65_536, 2_097_150, 2_097_151, 2_097_152, 2_097_153]);
    let route = s.raw(5);
    let style = s.raw(1);
    if !s.mine() {
        return Ok(());
    }
    s.note(|| format!("a string of {} bytes, route {}, style {}", n, route, style));
    s.count(n as u64 * 100 + route * 10 + style);
    let t = if style == 0 { "s".repeat(n) } else { format!("{}{}", if n % 2 == 1 { "x" } else { "" }, "ß".repeat(n / 2)) };
    one_string(&t, route)
}

fn huge_strings(s: &mut Src) -> R {
    let n = *s.pick(&[MAX - 1, MAX, MAX + 1, MAX + 2, MAX + 3000]);
    let route = s.raw(5);
    if !s.mine() {
        return Ok(());
    }
    if !s.thorough && (n == MAX - 1 || n == MAX + 3000) && route > 0 {
        return Ok(());
    }
    s.note(|| format!("a string of {} bytes, route {}", n, route));
    s.count(n as u64 * 10 + route);
    s.label(if n <= MAX { "within the limit" } else { "beyond the limit" });
    one_string(huge(n), route)
}

// ---- total size ---------------------------------------------------------------------------------

/// containers of just the largest size that their size field can say, and one byte more
fn total(s: &mut Src) -> R {
    // one worker does it all, one after the other, because of the memory it takes
    if !s.mine() {
        return Ok(());
    }
    s.count(1);
    s.label("total size at and beyond the limit");
    // array of 8: header 2 (count) + 8 * 5 (entries) follow the size; each string has 4 bytes of length
    let last_len = |n: usize, over: usize| i32::MAX as usize - (2 + n * 5) - n * 4 - (n - 1) * MAX + over;
    for over in [0usize, 1] {
        let n = 8;
        let mut v = Vec::new();
        let mut b = ArrayRefBuilder::try_new(&mut v, n as u16).map_err(e("builder"))?;
        let mut pushed = Ok(());
        for i in 0..n {
            let len = if i + 1 < n { MAX } else { last_len(n, over) };
            if let Err(x) = b.push_string(huge(len)) {
                pushed = Err(x);
                break;
            }
        }
        let what = format!("an array of {} bytes", i32::MAX as usize + over);
        match (pushed, over) {
            (Err(x), 0) => return Err(format!("{}: refused: {}", what, x)),
            (Err(_), _) => {}
            (Ok(()), _) => match (b.finish(), over) {
                (Err(x), 0) => return Err(format!("{}: refused: {}", what, x)),
                (Err(_), _) => {}
                (Ok(_), 1) => return Err(format!("{}: accepted", what)),
                (Ok(y), _) => {
                    let a = y.array().map_err(e("array"))?;
                    if a.len().map_err(e("len"))? != n || y.as_bytes().len() != i32::MAX as usize + 5 {
                        return Err(format!("{}: reads back differently", what));
                    }
                    for i in [0, 1, n - 2, n - 1] {
                        let len = if i + 1 < n { MAX } else { last_len(n, over) };
                        same_string(a.string(i).map_err(e("string"))?, huge(len), &what)?;
                    }
                }
            },
        }
    }
    // a query result that would be larger
    let y = {
        let mut b = ArrayBuilder::try_new(1).map_err(e("builder"))?;
        b.push_string(huge(MAX)).map_err(e("push"))?;
        b.finish().map_err(e("finish"))?
    };
    let mut buf = Vec::new();
    let p = PathExpression::from_str("$[0,0,0,0,0,0,0,0,0]").map_err(e("path"))?;
    match p.query(&y, true, None, Some(&mut buf)) {
        Ok(QueriedValue::Yason(d)) => {
            let n = d.array().and_then(|a| a.len()).map_err(e("array"))?;
            return Err(format!("a query result of more than 2147483647 bytes is accepted ({} elements)", n));
        }
        Ok(_) => return Err("a query with a result buffer gives another form".into()),
        Err(_) => {}
    }
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    rule: "every case counts: each is one length or count at, below or above a limit (or at a transition of a length field) through one route",
    subs: &[
        Sub { name: "total", f: total, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: REL },
        Sub { name: "keys", f: keys, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "counts", f: counts, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "duplicates", f: duplicates, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: REL },
        Sub { name: "results", f: results, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "strings", f: strings, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "huge-strings", f: huge_strings, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: REL },
    ],
    assumptions: &[
        "about 10 GB of memory are free",
        "a container whose size exceeds its 32-bit size field counts as content beyond a format limit",
    ],
    known: no_known,
};
