//! C21: every allocation failure, injected one at a time, is an error that leaves no trace.
use super::path::parse_path;
use super::text::text;
use super::*;
use crate::dirty;
use crate::drive::*;
use std::str::FromStr;
use yason::*;
use yvbase::engine::hash_bytes;
use yvbase::json;
use yvbase::path::{gen_steps, has_func, render};
use yvbase::run::*;

/// Allocations left before one fails; what happens to the others while it does.
struct Faults {
    left: u64,
    stay: bool,
    struck: bool,
    made: u64,
}
impl Faults {
    fn new(left: u64, stay: bool) -> Faults {
        Faults { left, stay, struck: false, made: 0 }
    }
    /// one call into the crate; true when an allocation failed in it
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> (T, bool) {
        if self.struck {
            return (f(), false);
        }
        let (r, made, failed) = dirty::failing(self.left, self.stay, f);
        self.made += made;
        self.left = self.left.saturating_sub(made);
        self.struck = failed > 0;
        (r, failed > 0)
    }
}

fn is_oom(e: &BuildError) -> bool {
    matches!(e, BuildError::TryReserveError(_))
}
fn is_oom_y(e: &YasonError) -> bool {
    match e {
        YasonError::TryReserveError(_) => true,
        e => format!("{:?}", e).contains("TryReserveError"),
    }
}

/// how a build ends that did not run into anything wrong
enum Stop {
    /// the error of a failed allocation was reported and the build is given up
    Given,
    Bad(String),
}
type S = Result<(), Stop>;

/// what one call answered; Ok(true) when it has to be repeated
fn judge<T>(r: &Result<T, BuildError>, hit: bool, again: bool, what: &str) -> Result<bool, Stop> {
    match r {
        // it may have managed with less memory; the content is compared at the end
        Ok(_) => Ok(false),
        Err(e) if hit && is_oom(e) => {
            if again {
                Ok(true)
            } else {
                Err(Stop::Given)
            }
        }
        Err(e) if hit => Err(Stop::Bad(format!("{}: a failed allocation is reported as {:?}", what, e))),
        Err(e) => Err(Stop::Bad(format!("{}: {:?} although no allocation failed in this call", what, e))),
    }
}

fn num(t: &str) -> Number {
    Number::from_str(t).expect("a number in range")
}

struct Run {
    f: Faults,
    /// repeat what failed; otherwise give up
    again: bool,
}

fn in_obj<T: ObjB>(mut n: T, m: &[(String, Plan)], r: &mut Run, fin: impl FnOnce(T) -> B<()>) -> S {
    for (k, v) in m {
        push_member(&mut n, k, v, r)?;
    }
    let (x, hit) = r.f.call(|| fin(n));
    judge(&x, hit, false, "finish of an object").map(|_| ())
}
fn in_arr<T: ArrB>(mut n: T, a: &[Plan], r: &mut Run, fin: impl FnOnce(T) -> B<()>) -> S {
    for v in a {
        push_element(&mut n, v, r)?;
    }
    let (x, hit) = r.f.call(|| fin(n));
    judge(&x, hit, false, "finish of an array").map(|_| ())
}
fn push_member<T: ObjB>(b: &mut T, k: &str, v: &Plan, r: &mut Run) -> S {
    loop {
        let again = r.again;
        let repeat = match v {
            Plan::Null => {
                let (x, hit) = r.f.call(|| b.o_null(k));
                judge(&x, hit, again, "a null member")?
            }
            Plan::Bool(t) => {
                let (x, hit) = r.f.call(|| b.o_bool(k, *t));
                judge(&x, hit, again, "a bool member")?
            }
            Plan::Num(t) => {
                let t = num(t);
                let (x, hit) = r.f.call(|| b.o_num(k, &t));
                judge(&x, hit, again, "a number member")?
            }
            Plan::Str(t) => {
                let (x, hit) = r.f.call(|| b.o_str(k, t));
                judge(&x, hit, again, "a string member")?
            }
            Plan::Arr(a) => {
                let bb = &mut *b;
                let (x, hit) = r.f.call(move || bb.o_arr(k, a.len() as u16));
                let repeat = judge(&x, hit, again, "an array member")?;
                if let Ok(n) = x {
                    in_arr(n, a, r, |n| n.finish().map(|_| ()))?;
                }
                repeat
            }
            Plan::Obj(sorted, m) => {
                let bb = &mut *b;
                let (x, hit) = r.f.call(move || bb.o_obj(k, m.len() as u16, *sorted));
                let repeat = judge(&x, hit, again, "an object member")?;
                if let Ok(n) = x {
                    in_obj(n, m, r, |n| n.finish().map(|_| ()))?;
                }
                repeat
            }
        };
        if !repeat {
            return Ok(());
        }
    }
}
fn push_element<T: ArrB>(b: &mut T, v: &Plan, r: &mut Run) -> S {
    loop {
        let again = r.again;
        let repeat = match v {
            Plan::Null => {
                let (x, hit) = r.f.call(|| b.a_null());
                judge(&x, hit, again, "a null element")?
            }
            Plan::Bool(t) => {
                let (x, hit) = r.f.call(|| b.a_bool(*t));
                judge(&x, hit, again, "a bool element")?
            }
            Plan::Num(t) => {
                let t = num(t);
                let (x, hit) = r.f.call(|| b.a_num(&t));
                judge(&x, hit, again, "a number element")?
            }
            Plan::Str(t) => {
                let (x, hit) = r.f.call(|| b.a_str(t));
                judge(&x, hit, again, "a string element")?
            }
            Plan::Arr(a) => {
                let bb = &mut *b;
                let (x, hit) = r.f.call(move || bb.a_arr(a.len() as u16));
                let repeat = judge(&x, hit, again, "an array element")?;
                if let Ok(n) = x {
                    in_arr(n, a, r, |n| n.finish().map(|_| ()))?;
                }
                repeat
            }
            Plan::Obj(sorted, m) => {
                let bb = &mut *b;
                let (x, hit) = r.f.call(move || bb.a_obj(m.len() as u16, *sorted));
                let repeat = judge(&x, hit, again, "an object element")?;
                if let Ok(n) = x {
                    in_obj(n, m, r, |n| n.finish().map(|_| ()))?;
                }
                repeat
            }
        };
        if !repeat {
            return Ok(());
        }
    }
}

fn scalar_owned(p: &Plan) -> B<YasonBuf> {
    owned(p)
}

/// the document from an owned builder under faults; None when it was given up
fn build_owned(p: &Plan, r: &mut Run) -> Result<Option<Vec<u8>>, String> {
    let mut out: Option<YasonBuf> = None;
    let res: S = (|| loop {
        let repeat = match p {
            Plan::Arr(a) => {
                let (x, hit) = r.f.call(|| ArrayBuilder::try_new(a.len() as u16));
                let again = judge(&x, hit, r.again, "a new array builder")?;
                if let Ok(b) = x {
                    let o = &mut out;
                    in_arr(b, a, r, |b| {
                        *o = Some(b.finish()?);
                        Ok(())
                    })?;
                }
                again
            }
            Plan::Obj(sorted, m) => {
                let (x, hit) = r.f.call(|| ObjectBuilder::try_new(m.len() as u16, *sorted));
                let again = judge(&x, hit, r.again, "a new object builder")?;
                if let Ok(b) = x {
                    let o = &mut out;
                    in_obj(b, m, r, |b| {
                        *o = Some(b.finish()?);
                        Ok(())
                    })?;
                }
                again
            }
            p => {
                let (x, hit) = match p {
                    Plan::Num(t) => {
                        let n = num(t);
                        r.f.call(|| Scalar::number(&n))
                    }
                    p => r.f.call(|| scalar_owned(p)),
                };
                let again = judge(&x, hit, r.again, "a scalar")?;
                if let Ok(y) = x {
                    out = Some(y);
                }
                again
            }
        };
        if !repeat {
            return Ok(());
        }
    })();
    match res {
        Ok(()) => Ok(out.map(|y| y.as_bytes().to_vec())),
        Err(Stop::Given) => Ok(None),
        Err(Stop::Bad(e)) => Err(e),
    }
}
/// the same into a vector of a given content and spare capacity
fn build_into(p: &Plan, v: &mut Vec<u8>, r: &mut Run) -> Result<bool, String> {
    let res: S = (|| loop {
        let repeat = match p {
            Plan::Arr(a) => {
                let vv = &mut *v;
                let (x, hit) = r.f.call(move || ArrayRefBuilder::try_new(vv, a.len() as u16));
                let again = judge(&x, hit, r.again, "a new array builder on a vector")?;
                if let Ok(b) = x {
                    in_arr(b, a, r, |b| b.finish().map(|_| ()))?;
                }
                again
            }
            Plan::Obj(sorted, m) => {
                let vv = &mut *v;
                let (x, hit) = r.f.call(move || ObjectRefBuilder::try_new(vv, m.len() as u16, *sorted));
                let again = judge(&x, hit, r.again, "a new object builder on a vector")?;
                if let Ok(b) = x {
                    in_obj(b, m, r, |b| b.finish().map(|_| ()))?;
                }
                again
            }
            p => {
                let n = if let Plan::Num(t) = p { Some(num(t)) } else { None };
                let vv = &mut *v;
                let (x, hit) = r.f.call(move || match (n, p) {
                    (Some(n), _) => Scalar::number_with_vec(n, vv).map(|_| ()),
                    (_, p) => into_vec(p, vv).map(|_| ()),
                });
                judge(&x, hit, r.again, "a scalar into a vector")?
            }
        };
        if !repeat {
            return Ok(());
        }
    })();
    match res {
        Ok(()) => Ok(true),
        Err(Stop::Given) => Ok(false),
        Err(Stop::Bad(e)) => Err(e),
    }
}

/// every point up to a limit, and some beyond
fn points(s: &mut Src, n: u64, all: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n.min(all)).collect();
    if n > all {
        for _ in 0..6 {
            v.push(all + s.raw(n - all - 1));
        }
    }
    v
}

/// few values of many bytes, or many small ones
fn long_doc(s: &mut Src) -> Val {
    let n = s.wide(3 << 20);
    let num = |i: usize| Val::Num(yvbase::dec::Dec::from_i64(i as i64));
    let v = match s.weighted(&[30, 15, 15, 20, 20]) {
        0 => Val::Str(gen::long_string(s, n)),
        1 => Val::Arr(vec![num(1), Val::Str(gen::long_string(s, n)), Val::Bool(true), Val::Null]),
        2 => Val::Obj(vec![("b".into(), Val::Str(gen::long_string(s, n))), ("a".into(), num(7))]),
        3 => Val::Arr((0..n % 65_536).map(num).collect()),
        _ => {
            let k = "k".repeat(s.wide(60_000));
            Val::Obj((0..1 + n % 9).map(|i| (format!("{}{}", k, i), num(i))).collect())
        }
    };
    s.label_if(n > 70_000, "more than 70000 bytes or values");
    s.count(v.hash());
    v
}

fn some_doc(s: &mut Src) -> Val {
    if s.bulk {
        s.bulk = false;
        return long_doc(s);
    }
    let c = match s.weighted(&[60, 38, 2]) {
        0 => gen::Cfg::small(),
        1 => gen::Cfg { max_count: 300, ..gen::Cfg::normal() },
        _ => gen::Cfg::large(),
    };
    doc_with(s, &c)
}

fn building(s: &mut Src) -> R {
    let v = some_doc(s);
    let p = plan(s, &v);
    let stay = s.chance(1, 2);
    let again = s.chance(3, 4);
    let want = owned(&p).map_err(|e| e.to_string())?;
    let want = want.as_bytes();
    s.note(|| format!("what fails is {}", if again { "repeated" } else { "given up" }));
    let mut strikes = 0usize;

    // the owned builder: how many allocations there are, then each of them failing
    let mut r = Run { f: Faults::new(u64::MAX >> 1, false), again };
    build_owned(&p, &mut r)?;
    let total = r.f.made;
    for k in points(s, total, 12) {
        let mut r = Run { f: Faults::new(k, stay), again };
        let got = build_owned(&p, &mut r).map_err(|e| format!("owned builder, allocation {} of {} fails: {}", k, total, e))?;
        strikes += r.f.struck as usize;
        match got {
            Some(b) if b != want => return Err(format!("owned builder, allocation {} of {} fails: another document is finished", k, total)),
            None if again => return Err("given up although repeated".into()),
            _ => {}
        }
    }
    // a vector of any spare capacity: the first allocation falls on any of the calls
    let n = s.held();
    let caps = if want.len() <= 48 {
        (0..want.len() + 8).collect()
    } else {
        let mut c: Vec<usize> = vec![0, want.len(), want.len() - 1];
        for _ in 0..20 {
            c.push(s.below(want.len() + 40));
        }
        c
    };
    for cap in caps {
        let k = if s.chance(1, 6) { 1 } else { 0 };
        let mut vec = Vec::with_capacity(n + cap);
        vec.resize(n, 0xC7u8);
        let mut r = Run { f: Faults::new(k, stay), again };
        let at = |e: String| format!("vector of {} bytes with room for {} more, allocation {} fails: {}", n, cap, k, e);
        let whole = build_into(&p, &mut vec, &mut r).map_err(at)?;
        strikes += r.f.struck as usize;
        if vec.len() < n || vec[..n].iter().any(|b| *b != 0xC7) {
            return Err(at("what the vector held before is damaged".into()));
        }
        if whole && vec[n..] != *want {
            return Err(at("another document is finished".into()));
        }
        if !whole && again {
            return Err(at("given up although repeated".into()));
        }
    }
    s.label_if(strikes > 0, "allocation failed in a builder call");
    s.label_if(strikes > 10, "more than 10 points of failure");
    s.label(if again { "what failed is repeated" } else { "given up after the failure" });
    Ok(())
}

/// conversion of an already parsed JSON value, and copies
fn converting(s: &mut Src) -> R {
    let v = some_doc(s);
    let stay = s.chance(1, 2);
    let t = json::compact(&v, &|d| num_text(d));
    if json::parse(&t).map_or(true, |p| p.marker) {
        return Ok(());
    }
    let jv: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    let (want, total, _) = dirty::failing(u64::MAX >> 1, false, || YasonBuf::try_from(&jv));
    let want = want.map_err(|e| e.to_string())?;
    for k in points(s, total, 12) {
        let (r, _, failed) = dirty::failing(k, stay, || YasonBuf::try_from(&jv));
        match r {
            Ok(y) if y.as_bytes() != want.as_bytes() => return Err(format!("converting: allocation {} of {}, {} failed: other bytes", k, total, failed)),
            Err(e) if failed > 0 && !is_oom(&e) => return Err(format!("converting: a failed allocation is reported as {:?}", e)),
            Err(e) if failed == 0 => return Err(format!("converting: {:?} although no allocation failed", e)),
            _ => {}
        }
        s.label_if(failed > 0, "allocation failed in a conversion");
    }
    // copies
    let (r, _, failed) = dirty::failing(0, stay, || want.to_yason_buf());
    match r {
        Err(e) if failed > 0 && is_oom_y(&e) => {}
        Ok(y) if y.as_bytes() == want.as_bytes() => {}
        Ok(_) => return Err("to_yason_buf gives other bytes".into()),
        Err(e) => return Err(format!("to_yason_buf: a failed allocation is reported as {:?}", e)),
    }
    let val = Value::try_from(&*want).map_err(|e| e.to_string())?;
    for room in [0usize, 1, 3, want.as_bytes().len().min(2_000)] {
        let mut buf: Vec<u8> = Vec::with_capacity(room);
        {
            let b = &mut buf;
            let val = &val;
            let (r, _, failed) = dirty::failing(0, stay, move || val.try_to_yason(b).map(|y| y.as_bytes().len()));
            match r {
                Err(e) if failed > 0 && is_oom_y(&e) => {}
                Ok(n) if n == want.as_bytes().len() => {}
                Ok(_) => return Err("try_to_yason gives another length".into()),
                Err(e) => return Err(format!("try_to_yason: a failed allocation is reported as {:?}", e)),
            }
        }
        buf.clear();
        let y = val.try_to_yason(&mut buf).map_err(|e| e.to_string())?;
        if y.as_bytes() != want.as_bytes() {
            return Err("try_to_yason gives other bytes after a failure".into());
        }
    }
    Ok(())
}

fn shown(q: &QueriedValue) -> Result<Option<String>, String> {
    if let QueriedValue::None = q {
        return Ok(None);
    }
    let mut t = String::new();
    q.format_to(false, &mut t).map_err(|e| e.to_string())?;
    Ok(Some(t))
}

/// path texts and queries
fn querying(s: &mut Src) -> R {
    let v = some_doc(s);
    let steps = {
        let func = s.chance(1, 4);
        gen_steps(s, &v, func)
    };
    let t = render(s, &steps, true);
    s.note(|| format!("path: {}", t));
    let stay = s.chance(1, 2);
    let (r, total, _) = dirty::failing(u64::MAX >> 1, false, || PathExpression::from_str(&t));
    let whole = match r {
        Ok(p) => format!("{:?}", p),
        Err(e) => return Err(format!("the path {:?} is refused: {}", t, e)),
    };
    for k in points(s, total, 12) {
        let (r, _, failed) = dirty::failing(k, stay, || PathExpression::from_str(&t));
        match r {
            Ok(p) if format!("{:?}", p) != whole => return Err(format!("the path {:?} means something else when allocation {} of {} fails", t, k, total)),
            Err(_) if failed == 0 => return Err(format!("the path {:?} is refused although no allocation failed", t)),
            _ => {}
        }
        s.label_if(failed > 0, "allocation failed in a path");
    }
    let p = parse_path(&t)?;
    let d = build(s, &v)?;
    let y = d.yason();
    if super::path::reference(&v, &steps).is_none() {
        return Ok(());
    }
    let wrap = has_func(&steps) || s.chance(2, 3);
    let (own_q, own_r) = (s.chance(1, 2), s.chance(1, 3));
    let mut rb: Vec<u8> = Vec::new();
    // the answer with memory, and the number of allocations
    let want = match p.query(y, wrap, None, None) {
        Ok(q) => Some(shown(&q)?),
        Err(YasonError::MultiValuesWithoutWrapper) => None,
        Err(e) if format!("{:?}", e).contains("TooManyElements") => return Ok(()),
        Err(e) => return Err(format!("query: {:?}", e)),
    };
    let total = {
        let mut qb: Vec<Value> = Vec::new();
        let mut rb: Vec<u8> = Vec::new();
        let (a, b) = (if own_q { None } else { Some(&mut qb) }, if own_r { None } else { Some(&mut rb) });
        let (r, made, _) = dirty::failing(u64::MAX >> 1, false, || p.query(y, wrap, a, b));
        drop(r);
        made
    };
    let room = s.below(40);
    for k in points(s, total, 10) {
        let mut qb: Vec<Value> = Vec::new();
        // a result buffer that is reused has room for some of it
        rb.truncate(0);
        rb.shrink_to(room);
        {
            let (a, b) = (if own_q { None } else { Some(&mut qb) }, if own_r { None } else { Some(&mut rb) });
            let (r, _, failed) = dirty::failing(k, stay, || p.query(y, wrap, a, b));
            match r {
                Ok(q) => {
                    if Some(shown(&q)?) != want {
                        return Err("query gives another result".into());
                    }
                }
                Err(e) if failed > 0 && is_oom_y(&e) => {}
                Err(YasonError::MultiValuesWithoutWrapper) if failed == 0 && want.is_none() => {}
                Err(e) => return Err(format!("query: allocation {} of {}, {} failed: {:?}", k, total, failed, e)),
            }
            s.label_if(failed > 0, "allocation failed in a query");
        }
        // the same buffers afterwards
        let (a, b) = (if own_q { None } else { Some(&mut qb) }, if own_r { None } else { Some(&mut rb) });
        let q = match p.query(y, wrap, a, b) {
            Ok(q) => Some(shown(&q)?),
            Err(YasonError::MultiValuesWithoutWrapper) => None,
            Err(e) => return Err(format!("query after a failure: {:?}", e)),
        };
        if q != want {
            return Err("query after a failure gives another result".into());
        }
    }
    let (r, _, failed) = dirty::failing(0, stay, || if has_func(&steps) { Ok(false) } else { p.exists(y) });
    match r {
        Ok(_) => {}
        Err(e) if failed > 0 && is_oom_y(&e) => {}
        r => return Err(format!("exists with {} failed allocations: {:?}", failed, r)),
    }
    if text(y, false)? != json::compact(&v.canon(), &|d| num_text(d)) {
        return Err("the document is changed".into());
    }
    s.count(hash_bytes(t.as_bytes()) ^ v.hash());
    Ok(())
}

/// the same with long values and wide containers
fn building_long(s: &mut Src) -> R {
    s.bulk = true;
    building(s)
}
fn converting_long(s: &mut Src) -> R {
    s.bulk = true;
    converting(s)
}
fn querying_long(s: &mut Src) -> R {
    s.bulk = true;
    querying(s)
}

pub static C21: Prop = Prop {
    id: "C21",
    rule: "a case counts when its document holds at least two values or a non-empty string or a non-zero number; distinct by content (and path). Every allocation of every call fails once, up to a dozen per case, a sample beyond",
    subs: &[
        Sub { name: "building", f: building, mode: Mode::Random, quick: 30_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "building-long", f: building_long, mode: Mode::Random, quick: 300, thorough: 12_000, profiles: BOTH },
        Sub { name: "converting-long", f: converting_long, mode: Mode::Random, quick: 300, thorough: 12_000, profiles: BOTH },
        Sub { name: "querying-long", f: querying_long, mode: Mode::Random, quick: 300, thorough: 12_000, profiles: BOTH },
        Sub { name: "converting", f: converting, mode: Mode::Random, quick: 30_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "querying", f: querying, mode: Mode::Random, quick: 40_000, thorough: 2_000_000, profiles: BOTH },
    ],
    assumptions: &[
        "operations without an error to report it in (to_owned, clone, Debug), those that start with the JSON library (parse, parse_to) and the serde routes are left out: they end the process when memory runs out",
        "numbers of already parsed JSON values have at most 256 characters",
    ],
    known: no_known,
};
