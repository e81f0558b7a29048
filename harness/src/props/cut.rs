//! C19: documents of which only the first bytes are there, placed so that reading past them faults.
use super::path::{path_doc, reference};
use super::text::text;
use super::*;
use crate::drive::*;
use crate::read::*;
use std::fmt::Write;
use yason::*;
use yvbase::engine::clip;
use yvbase::json;
use yvbase::model::TYPES;
use yvbase::path::{gen_steps, render};
use yvbase::run::*;

/// memory that ends where an inaccessible page begins
struct Edge {
    base: *mut u8,
    len: usize,
}
const ROOM: usize = 1 << 20;
impl Edge {
    fn get() -> &'static Edge {
        extern "C" {
            fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
            fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
        }
        struct S(Edge);
        unsafe impl Sync for S {}
        unsafe impl Send for S {}
        static E: std::sync::OnceLock<S> = std::sync::OnceLock::new();
        &E.get_or_init(|| unsafe {
            let p = mmap(std::ptr::null_mut(), ROOM + 8192, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            // a page before and a page after
            assert_eq!(mprotect(p, 4096, 0), 0);
            assert_eq!(mprotect(p.add(4096 + ROOM), 4096, 0), 0);
            S(Edge { base: p.add(4096), len: ROOM })
        })
        .0
    }
    /// the bytes, ending at the inaccessible page
    fn place(&self, b: &[u8]) -> &'static Yason {
        assert!(b.len() <= self.len && !b.is_empty());
        unsafe {
            let at = self.base.add(self.len - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            Yason::new_unchecked(std::slice::from_raw_parts(at, b.len()))
        }
    }
}

/// what came back, counted
#[derive(Default)]
struct Tally {
    ok: usize,
    err: usize,
}
impl Tally {
    fn is<T>(&mut self, r: &YasonResultOf<T>) -> bool {
        if r.is_ok() {
            self.ok += 1;
        } else {
            self.err += 1;
        }
        r.is_ok()
    }
}
type YasonResultOf<T> = Result<T, YasonError>;

fn must<T: PartialEq + std::fmt::Debug>(t: &mut Tally, r: YasonResultOf<T>, want: T, what: &dyn Fn() -> String) -> R {
    t.is(&r);
    match r {
        Ok(g) if g != want => Err(format!("{}: {} but the complete document says {}", what(), clip(&format!("{:?}", g), 200), clip(&format!("{:?}", want), 200))),
        _ => Ok(()),
    }
}

/// a value that was returned must be the one of the complete document
fn lenient(t: &mut Tally, got: &Value, want: &Val, deep: bool, what: &dyn Fn() -> String) -> R {
    let ok = match (got, want) {
        (Value::Null, Val::Null) => true,
        (Value::Bool(a), Val::Bool(b)) => a == b,
        (Value::Number(a), Val::Num(b)) => of_number(a) == *b,
        (Value::String(a), Val::Str(b)) => a == b,
        (Value::Array(a), Val::Arr(w)) => {
            return if deep { walk_array(t, a, w, what) } else { must(t, a.len(), w.len(), what) };
        }
        (Value::Object(a), Val::Obj(m)) => {
            return if deep { walk_object(t, a, m, what) } else { must(t, a.len(), m.len(), what) };
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{}: {} but the complete document has {}", what(), clip(&format!("{:?}", got), 200), brief(want)))
    }
}

fn typed(t: &mut Tally, g: Got, ty: yvbase::model::Ty, want: &Val, what: &dyn Fn() -> String) -> R {
    match g {
        Got::Val(v) => {
            t.ok += 1;
            if ty != want.ty() {
                return Err(format!("{} as {}: a value is returned, the complete document has a {}", what(), ty.name(), want.ty().name()));
            }
            lenient(t, &v, want, false, what)
        }
        Got::Absent => {
            t.ok += 1;
            if ty == yvbase::model::Ty::Null && want.ty() != ty {
                Ok(())
            } else {
                Err(format!("{} as {}: absent, the complete document has it", what(), ty.name()))
            }
        }
        Got::Err(_) => {
            t.err += 1;
            Ok(())
        }
    }
}

fn walk_array(t: &mut Tally, x: &Array, w: &[Val], path: &dyn Fn() -> String) -> R {
    must(t, x.len(), w.len(), &|| format!("{}: len", path()))?;
    must(t, x.is_empty(), w.is_empty(), &|| format!("{}: is_empty", path()))?;
    let it = x.iter();
    if t.is(&it) {
        let mut failed = false;
        for (i, r) in it.map_err(|e| e.to_string())?.enumerate() {
            if i > w.len() + 4 {
                if !failed {
                    return Err(format!("{}: the iterator goes on after {} elements", path(), w.len()));
                }
                break;
            }
            t.is(&r);
            match r {
                Ok(v) if !failed => {
                    let Some(want) = w.get(i) else { return Err(format!("{}: the iterator goes on after {} elements", path(), w.len())) };
                    lenient(t, &v, want, true, &|| clip(&format!("{}[{}] by iter", path(), i), 300))?;
                }
                Ok(v) => {
                    let mut scratch = Tally::default();
                    if !w.iter().any(|want| lenient(&mut scratch, &v, want, false, &|| String::new()).is_ok()) {
                        return Err(format!("{}: after an error the iterator gives {:?}, which the complete document does not hold", path(), v));
                    }
                }
                Err(_) => failed = true,
            }
        }
        let n = x.iter().map_err(|e| e.to_string())?.take(w.len() + 5).count();
        if !failed && n != w.len() {
            return Err(format!("{}: the iterator ends after {} of {} elements without an error", path(), n, w.len()));
        }
    }
    for i in picks(w.len(), 16) {
        let what = || format!("{}[{}]", path(), i);
        let g = x.get(i);
        if t.is(&g) {
            lenient(t, &g.map_err(|e| e.to_string())?, &w[i], false, &what)?;
        }
        let g = unsafe { x.get_unchecked(i) };
        if t.is(&g) {
            lenient(t, &g.map_err(|e| e.to_string())?, &w[i], false, &what)?;
        }
        must(t, x.type_of(i), dt(w[i].ty()), &what)?;
        must(t, x.is_null(i), matches!(w[i], Val::Null), &what)?;
        for ty in TYPES {
            must(t, x.is_type(i, dt(ty)), ty == w[i].ty(), &what)?;
            typed(t, typed_element(x, i, ty), ty, &w[i], &what)?;
        }
    }
    for i in [w.len(), w.len() + 1, usize::MAX] {
        if let Ok(v) = x.get(i) {
            return Err(format!("{}: get({}) of {} elements gives {:?}", path(), i, w.len(), v));
        }
        if x.type_of(i).is_ok() || x.string(i).is_ok() || x.object(i).is_ok() {
            return Err(format!("{}: element {} of {} is found", path(), i, w.len()));
        }
    }
    Ok(())
}

fn walk_object(t: &mut Tally, x: &Object, m: &[(String, Val)], path: &dyn Fn() -> String) -> R {
    let w = members(m);
    must(t, x.len(), w.len(), &|| format!("{}: len", path()))?;
    must(t, x.is_empty(), w.is_empty(), &|| format!("{}: is_empty", path()))?;
    // the three iterators
    let mut failed = [false; 3];
    let mut count = [0usize; 3];
    let it = x.iter();
    if t.is(&it) {
        for (i, r) in it.map_err(|e| e.to_string())?.take(w.len() + 5).enumerate() {
            count[0] += 1;
            t.is(&r);
            match r {
                Ok((k, v)) if !failed[0] => {
                    let Some(want) = w.get(i) else { return Err(format!("{}: the iterator goes on after {} members", path(), w.len())) };
                    if k != want.0 {
                        return Err(format!("{}: entry {} has key {:?}, the complete document {:?}", path(), i, clip(k, 100), clip(want.0, 100)));
                    }
                    lenient(t, &v, want.1, true, &|| clip(&format!("{}.{} by iter", path(), k), 300))?;
                }
                Ok((k, v)) => {
                    let mut scratch = Tally::default();
                    if !w.iter().any(|want| want.0 == k && lenient(&mut scratch, &v, want.1, false, &|| String::new()).is_ok()) {
                        return Err(format!("{}: after an error the iterator gives an entry that the complete document does not hold", path()));
                    }
                }
                Err(_) => failed[0] = true,
            }
        }
    } else {
        failed[0] = true;
    }
    let it = x.key_iter();
    if t.is(&it) {
        for (i, r) in it.map_err(|e| e.to_string())?.take(w.len() + 5).enumerate() {
            count[1] += 1;
            t.is(&r);
            match r {
                Ok(k) => {
                    let fine = if failed[1] { w.iter().any(|x| x.0 == k) } else { w.get(i).map_or(false, |x| x.0 == k) };
                    if !fine {
                        return Err(format!("{}: key_iter gives {:?} at {}", path(), clip(k, 100), i));
                    }
                }
                Err(_) => failed[1] = true,
            }
        }
    } else {
        failed[1] = true;
    }
    let it = x.value_iter();
    if t.is(&it) {
        for (i, r) in it.map_err(|e| e.to_string())?.take(w.len() + 5).enumerate() {
            count[2] += 1;
            t.is(&r);
            match r {
                Ok(v) => {
                    let mut scratch = Tally::default();
                    let fine = if failed[2] {
                        w.iter().any(|x| lenient(&mut scratch, &v, x.1, false, &|| String::new()).is_ok())
                    } else {
                        w.get(i).map_or(false, |x| lenient(&mut scratch, &v, x.1, false, &|| String::new()).is_ok())
                    };
                    if !fine {
                        return Err(format!("{}: value_iter gives {:?} at {}", path(), v, i));
                    }
                }
                Err(_) => failed[2] = true,
            }
        }
    } else {
        failed[2] = true;
    }
    for (k, name) in ["iter", "key_iter", "value_iter"].iter().enumerate() {
        if !failed[k] && count[k] != w.len() {
            return Err(format!("{}: {} ends after {} of {} members without an error", path(), name, count[k], w.len()));
        }
    }
    let mut probes: Vec<(String, Option<&Val>)> = picks(w.len(), 16).into_iter().map(|i| (w[i].0.to_string(), Some(w[i].1))).collect();
    for p in ["", "a", "zz", "no such key"] {
        if !w.iter().any(|x| x.0 == p) {
            probes.push((p.to_string(), None));
        }
    }
    if let Some(f) = w.first() {
        let p = format!("{}\u{1}", f.0);
        if f.0.len() < 300 && !w.iter().any(|x| x.0 == p) {
            probes.push((p, None));
        }
    }
    for (k, want) in &probes {
        let what = || clip(&format!("{}.{}", path(), k), 300);
        must(t, x.contains_key(k), want.is_some(), &what)?;
        must(t, x.type_of(k), want.map(|v| dt(v.ty())), &what)?;
        must(t, x.is_null(k), want.map(|v| matches!(v, Val::Null)), &what)?;
        let g = x.get(k);
        t.is(&g);
        match (g, want) {
            (Ok(Some(v)), Some(want)) => lenient(t, &v, want, false, &what)?,
            (Ok(None), None) | (Err(_), _) => {}
            (Ok(Some(v)), None) => return Err(format!("{}: get finds {:?} under an absent key", what(), v)),
            (Ok(None), Some(_)) => return Err(format!("{}: get finds nothing", what())),
        }
        for ty in TYPES {
            must(t, x.is_type(k, dt(ty)), want.map(|v| v.ty() == ty), &what)?;
            match want {
                Some(v) => typed(t, typed_member(x, k, ty), ty, v, &what)?,
                None => {
                    if let Got::Val(_) = typed_member(x, k, ty) {
                        return Err(format!("{}: a value under an absent key", what()));
                    }
                }
            }
        }
    }
    Ok(())
}

struct Q {
    path: PathExpression,
    text: String,
    want: Vec<Val>,
    func: bool,
}

/// a list of values that a query of the cut-off document gave
fn list(t: &mut Tally, vals: &[Value], q: &Q, how: &str) -> R {
    if vals.len() != q.want.len() {
        return Err(format!("{} ({}) selects {} values, {} from the complete document", q.text, how, vals.len(), q.want.len()));
    }
    for (i, (v, w)) in vals.iter().zip(&q.want).enumerate() {
        lenient(t, v, w, i < 20, &|| format!("value {} of {} ({})", i, q.text, how))?;
    }
    Ok(())
}

fn query(t: &mut Tally, y: &Yason, q: &Q) -> R {
    let r = q.path.query(y, true, None, None);
    if t.is(&r) {
        match r.map_err(|e| e.to_string())? {
            QueriedValue::None => list(t, &[], q, "wrapped")?,
            QueriedValue::Values(v) => list(t, &v, q, "wrapped")?,
            _ => return Err("a wrapped query without buffers gives another form".into()),
        }
    }
    let mut vals = Vec::new();
    let mut bytes = Vec::new();
    let r = q.path.query(y, true, Some(&mut vals), Some(&mut bytes));
    if t.is(&r) {
        match r.map_err(|e| e.to_string())? {
            QueriedValue::None => list(t, &[], q, "with buffers")?,
            QueriedValue::Yason(d) => {
                let v = Val::Arr(q.want.clone());
                whole(t, d, &v, &format!("result document of {}", q.text))?;
            }
            _ => return Err("a query with a result buffer gives another form".into()),
        }
    }
    if !q.func {
        let r = q.path.exists(y);
        must(t, r, !q.want.is_empty(), &|| format!("existence of {}", q.text))?;
        let r = q.path.query(y, false, None, None);
        match r {
            Ok(QueriedValue::None) => list(t, &[], q, "unwrapped")?,
            Ok(QueriedValue::Value(v)) => list(t, &[v], q, "unwrapped")?,
            Ok(_) => return Err("an unwrapped query gives a list".into()),
            Err(YasonError::MultiValuesWithoutWrapper) if q.want.len() < 2 => {
                return Err(format!("{} reports several values, the complete document has {}", q.text, q.want.len()));
            }
            Err(_) => t.err += 1,
        }
    }
    Ok(())
}

/// the document itself in every way of reading
fn whole(t: &mut Tally, y: &Yason, v: &Val, name: &str) -> R {
    let what = || name.to_string();
    must(t, y.data_type(), dt(v.ty()), &what)?;
    must(t, y.is_null(), matches!(v, Val::Null), &what)?;
    for ty in TYPES {
        typed(t, typed_yason(y, ty), ty, v, &what)?;
    }
    let x = Value::try_from(y);
    if t.is(&x) {
        lenient(t, &x.map_err(|e| e.to_string())?, v, true, &what)?;
    }
    Ok(())
}

struct Full {
    compact: String,
    pretty: String,
}

fn check_cut(t: &mut Tally, y: &Yason, v: &Val, full: &Full, others: &[(YasonBuf, bool)], qs: &[Q]) -> R {
    whole(t, y, v, "$")?;
    for (pretty, want) in [(false, &full.compact), (true, &full.pretty)] {
        let mut s = String::new();
        let r = y.format_to(pretty, &mut s);
        match r {
            Ok(()) => {
                t.ok += 1;
                if s != *want {
                    return Err(format!("formats without an error as {} instead of {}", clip(&s, 200), clip(want, 200)));
                }
            }
            Err(_) => {
                t.err += 1;
                if !want.starts_with(&s) {
                    return Err(format!("what is written before the error is no part of the full text: {} / {}", clip(&s, 200), clip(want, 200)));
                }
            }
        }
        let mut s = String::new();
        let r = write!(s, "{}", y.format(pretty));
        if (r.is_ok() && s != *want) || !want.starts_with(&s) {
            return Err(format!("displays as {} instead of {}", clip(&s, 200), clip(want, 200)));
        }
    }
    for (o, eq) in others {
        must(t, y.equals(o), *eq, &|| "equals another document".to_string())?;
        must(t, o.equals(y), *eq, &|| "another document equals it".to_string())?;
    }
    for q in qs {
        query(t, y, q)?;
    }
    let _ = y.to_yason_buf().map(|b| b.as_bytes().len());
    Ok(())
}

fn run_cuts(s: &mut Src, v: &Val, bytes: &[u8], cuts: &[usize]) -> R {
    let full = Full { compact: json::compact(v, &num_text), pretty: json::pretty(v, &num_text) };
    let whole_doc = unsafe { Yason::new_unchecked(bytes) }.to_owned();
    if text(&whole_doc, false)? != full.compact {
        return Err("the complete document formats as something else".into());
    }
    let tw = gen::tweak(s, v);
    let mut others = vec![(whole_doc, true)];
    if tw.fits() && tw.depth() <= 100 {
        let eq = tw.canon() == v.canon();
        others.push((owned(&straight(&tw)).map_err(|e| e.to_string())?, eq));
    }
    let mut qs = Vec::new();
    for _ in 0..3 {
        let steps = gen_steps(s, v, true);
        let text = render(s, &steps, false);
        if let Some(want) = reference(v, &steps) {
            if want.len() < 2000 {
                s.note(|| format!("path: {}", text));
                qs.push(Q { path: text.parse().map_err(|e| format!("{}: {}", text, e))?, func: yvbase::path::has_func(&steps), text, want });
            }
        }
    }
    let mut t = Tally::default();
    for &c in cuts {
        let y = Edge::get().place(&bytes[..c]);
        check_cut(&mut t, y, v, &full, &others, &qs).map_err(|e| format!("cut after {} of {} bytes: {}", c, bytes.len(), e))?;
    }
    s.label_if(t.ok > 0, "some reads succeed");
    s.label_if(t.err > 0, "some reads fail");
    Ok(())
}

/// every cut of a small document
fn small(s: &mut Src) -> R {
    let v = if s.chance(1, 3) { path_doc(s) } else { doc_with(s, &gen::Cfg { nodes: 12, bytes: 150, max_count: 8, max_str: 140, max_key: 20, max_depth: 20 }) };
    let d = build(s, &v)?;
    let bytes = d.yason().as_bytes();
    if bytes.len() > 700 || bytes.len() < 2 {
        return Ok(());
    }
    s.note(|| format!("document: {}", brief(&v)));
    s.count(v.hash());
    s.label("every cut position");
    let cuts: Vec<usize> = (1..=bytes.len()).collect();
    run_cuts(s, &v, bytes, &cuts)
}

/// a few cuts of larger ones
fn large(s: &mut Src) -> R {
    let c = if s.chance(1, 30) { gen::Cfg { max_count: 5_000, bytes: 60_000, ..gen::Cfg::large() } } else { gen::Cfg { max_count: 400, ..gen::Cfg::normal() } };
    let v = doc_with(s, &c);
    let d = build(s, &v)?;
    let bytes = d.yason().as_bytes();
    let n = bytes.len();
    if n > ROOM || n < 2 {
        return Ok(());
    }
    let cuts: Vec<usize> = (0..3)
        .map(|_| match s.raw(3) {
            0 => n - 1 - s.small(20.min(n - 2)),
            1 => 1 + s.small(40.min(n - 2)),
            _ => 1 + s.below(n - 1),
        })
        .collect();
    s.note(|| format!("cuts: {:?} of {}", cuts, n));
    run_cuts(s, &v, bytes, &cuts)
}

/// long strings, long keys and wide containers, cut close to their boundaries
fn long(s: &mut Src) -> R {
    let n = s.wide(900_000);
    let num = |i: usize| Val::Num(yvbase::dec::Dec::from_i64(i as i64));
    let v = match s.weighted(&[25, 25, 25, 25]) {
        0 => Val::Str(gen::long_string(s, n)),
        1 => Val::Arr(vec![num(1), Val::Str(gen::long_string(s, n)), Val::Bool(true), Val::Str("end".into())]),
        2 => {
            let k = "k".repeat(n % 65_000);
            Val::Obj(vec![("a".into(), Val::Str("x".repeat(n / 3))), (format!("{}y", k), num(2)), (format!("{}z", k), Val::Str("end".into()))])
        }
        _ => {
            let m = n % 30_000;
            let every = 1 + s.small(50);
            Val::Arr((0..m).map(|i| if i % every == 0 { Val::Str(i.to_string()) } else { Val::Bool(true) }).collect())
        }
    };
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    let bytes = y.as_bytes();
    let n = bytes.len();
    if n > ROOM || n < 2 {
        return Ok(());
    }
    s.note(|| format!("document: {}", brief(&v)));
    s.count(v.hash());
    s.label_if(n > 70_000, "more than 70000 bytes");
    let cuts: Vec<usize> = (0..2)
        .map(|_| match s.raw(3) {
            0 => n - 1 - s.small(40.min(n - 2)),
            1 => 1 + s.small(60.min(n - 2)),
            2 => n - 1,
            _ => 1 + s.below(n - 1),
        })
        .collect();
    s.note(|| format!("cuts: {:?} of {}", cuts, n));
    run_cuts(s, &v, bytes, &cuts)
}

pub static C19: Prop = Prop {
    id: "C19",
    rule: "a case counts when its document holds at least two values or a non-empty string or a non-zero number; distinct by content",
    subs: &[
        Sub { name: "small", f: small, mode: Mode::Random, quick: 6_000, thorough: 400_000, profiles: REL },
        Sub { name: "long", f: long, mode: Mode::Random, quick: 1_200, thorough: 40_000, profiles: REL },
        Sub { name: "large", f: large, mode: Mode::Random, quick: 16_000, thorough: 800_000, profiles: REL },
    ],
    assumptions: &[
        "optimised build only: with debug assertions on, a cut-off document may panic",
        "reading outside the bytes is noticed by a fault at the first byte after them, or by a wrong answer",
        "at least one byte is given",
    ],
    known: no_known,
};
