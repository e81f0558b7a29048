//! C22: nothing that was done before, is half done or is done at the same time changes an answer.
use super::path::{parse_path, path_doc, reference};
use super::*;
use crate::drive::*;
use crate::read::*;
use std::fmt::Write;
use std::str::FromStr;
use yason::*;
use yvbase::engine::{clip, hash_bytes};
use yvbase::json;
use yvbase::model::Ty;
use yvbase::path::{gen_steps, render, Step};
use yvbase::run::*;

/// everything the operations work on, and what is known about it
struct World {
    docs: Vec<YasonBuf>,
    vals: Vec<Val>,
    bytes: Vec<Vec<u8>>,
    paths: Vec<(PathExpression, Vec<Step>, String)>,
    keys: Vec<String>,
    bad: Vec<String>,
}
/// used by several threads at once
struct Shared<'a>(&'a World);
unsafe impl Sync for Shared<'_> {}

/// what an operation may write into; never cleaned in between
#[derive(Default)]
struct Scratch {
    out: Vec<u8>,
}

#[derive(Clone, Debug)]
enum Op {
    Text(usize, bool),
    Display(usize, bool),
    Content(usize),
    Equal(usize, usize),
    Query(usize, usize, u8),
    PathAgain(usize, usize),
    Key(usize, Vec<u64>, usize),
    Index(usize, Vec<u64>, usize),
    Parse(usize),
    Build(usize),
    Serde(usize),
    Readers(usize),
    Bad(u8, usize),
}

fn gen_op(s: &mut Src, w: &World) -> Op {
    let d = s.below(w.docs.len());
    let walk = |s: &mut Src| -> Vec<u64> { (0..s.below(4)).map(|_| s.raw(7)).collect() };
    match s.weighted(&[6, 4, 6, 10, 30, 6, 14, 10, 4, 4, 3, 12, 6]) {
        0 => Op::Text(d, s.chance(1, 2)),
        1 => Op::Display(d, s.chance(1, 2)),
        2 => Op::Content(d),
        3 => Op::Equal(d, s.below(w.docs.len())),
        4 => Op::Query(d, s.below(w.paths.len()), s.raw(5) as u8),
        5 => Op::PathAgain(d, s.below(w.paths.len())),
        6 => Op::Key(d, walk(s), s.below(w.keys.len())),
        7 => Op::Index(d, walk(s), s.below(6)),
        8 => Op::Parse(d),
        9 => Op::Build(d),
        10 => Op::Serde(d),
        12 => Op::Readers(d),
        _ => Op::Bad(s.raw(5) as u8, s.below(w.bad.len().max(w.docs.len()))),
    }
}

fn shown(v: &Val) -> String {
    json::compact(&v.canon(), &|d| d.text())
}
fn shown_all(vs: &[Val]) -> String {
    vs.iter().map(shown).collect::<Vec<_>>().join(";")
}

/// a nested value, by turns
fn down<'a>(v: &'a Val, walk: &[u64]) -> &'a Val {
    let mut v = v;
    for k in walk {
        match v {
            Val::Arr(a) if !a.is_empty() => v = &a[*k as usize % a.len()],
            Val::Obj(m) if !m.is_empty() => v = members(m)[*k as usize % m.len()].1,
            _ => break,
        }
    }
    v
}
fn down_value<'a>(y: &'a Yason, walk: &[u64]) -> Result<Value<'a>, YasonError> {
    let mut v = Value::try_from(y)?;
    for k in walk {
        let next = match &v {
            Value::Array(a) if a.len()? > 0 => a.get(*k as usize % a.len()?)?,
            Value::Object(o) if o.len()? > 0 => o.value_iter()?.nth(*k as usize % o.len()?).expect("an element")?,
            _ => break,
        };
        v = next;
    }
    Ok(v)
}

/// what the operation has to answer, whatever happened before; None when that is too much to compare
fn due(op: &Op, w: &World) -> Option<String> {
    Some(match op {
        Op::Text(d, false) | Op::Display(d, false) => json::compact(&w.vals[*d], &num_text),
        Op::Text(d, true) | Op::Display(d, true) => json::pretty(&w.vals[*d], &num_text),
        Op::Content(d) => shown(&w.vals[*d]),
        Op::Equal(a, b) => (w.vals[*a].canon() == w.vals[*b].canon()).to_string(),
        Op::Query(d, p, mode) => {
            let r = reference(&w.vals[*d], &w.paths[*p].1)?;
            let func = yvbase::path::has_func(&w.paths[*p].1);
            match mode {
                3 if func => "refused".into(),
                3 if r.len() > 1 => "refused".into(),
                4 if func => "refused".into(),
                4 => (!r.is_empty()).to_string(),
                _ => shown_all(&r),
            }
        }
        Op::PathAgain(d, p) => shown_all(&reference(&w.vals[*d], &w.paths[*p].1)?),
        Op::Key(d, walk, k) => match down(&w.vals[*d], walk) {
            Val::Obj(m) => match m.iter().find(|x| x.0 == w.keys[*k]) {
                Some((_, v)) => format!("{} {}", v.ty().name(), shown(v)),
                None => "absent".into(),
            },
            v => v.ty().name().to_string(),
        },
        Op::Index(d, walk, i) => match down(&w.vals[*d], walk) {
            Val::Arr(a) => match a.get(*i) {
                Some(v) => format!("{} {}", v.ty().name(), shown(v)),
                None => format!("{} of {}", i, a.len()),
            },
            v => v.ty().name().to_string(),
        },
        Op::Parse(d) | Op::Serde(d) => shown(&w.vals[*d]),
        Op::Build(_) => "same".into(),
        Op::Readers(_) => "as stored".into(),
        Op::Bad(..) => "refused".into(),
    })
}

fn type_name(v: &Value) -> &'static str {
    match v.data_type() {
        DataType::Object => Ty::Object.name(),
        DataType::Array => Ty::Array.name(),
        DataType::String => Ty::String.name(),
        DataType::Number => Ty::Number.name(),
        DataType::Bool => Ty::Bool.name(),
        DataType::Null => Ty::Null.name(),
    }
}

struct Full(usize);
impl Write for Full {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if t.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= t.len();
        Ok(())
    }
}

/// the answer of the code
fn answer(op: &Op, w: &World, sc: &mut Scratch) -> Result<String, String> {
    let e = |e: YasonError| e.to_string();
    let eb = |e: BuildError| e.to_string();
    Ok(match op {
        Op::Text(d, pretty) => super::text::text(&w.docs[*d], *pretty)?,
        Op::Display(d, pretty) => format!("{}", w.docs[*d].format(*pretty)),
        Op::Content(d) => shown(&content_of(&w.docs[*d])?),
        Op::Equal(a, b) => w.docs[*a].equals(&w.docs[*b]).map_err(e)?.to_string(),
        Op::Query(d, p, mode) => {
            let (y, p) = (&w.docs[*d], &w.paths[*p].0);
            let list = |v: &[Value]| -> Result<String, String> { Ok(shown_all(&v.iter().map(content).collect::<Result<Vec<_>, _>>()?)) };
            let form = |q: &QueriedValue| -> Result<String, String> {
                match q {
                    QueriedValue::None => Ok(String::new()),
                    QueriedValue::Value(v) => list(std::slice::from_ref(v)),
                    QueriedValue::Values(v) => list(v),
                    QueriedValue::ValuesRef(v) => list(v),
                    QueriedValue::Yason(y) => match content_of(y)? {
                        Val::Arr(a) => Ok(shown_all(&a)),
                        v => Err(format!("the result document is {}", brief(&v))),
                    },
                }
            };
            match mode {
                1 => {
                    let mut held: Vec<Value> = vec![Value::Null];
                    let q = p.query(y, true, Some(&mut held), None).map_err(e)?;
                    form(&q)?
                }
                2 => form(&p.query(y, true, None, Some(&mut sc.out)).map_err(e)?)?,
                3 => match p.query(y, false, None, None) {
                    Ok(q) => form(&q)?,
                    Err(_) => "refused".into(),
                },
                4 => match p.exists(y) {
                    Ok(b) => b.to_string(),
                    Err(_) => "refused".into(),
                },
                _ => form(&p.query(y, true, None, None).map_err(e)?)?,
            }
        }
        Op::PathAgain(d, p) => {
            let p = parse_path(&w.paths[*p].2)?;
            return match p.query(&w.docs[*d], true, None, None).map_err(e)? {
                QueriedValue::None => Ok(String::new()),
                QueriedValue::Values(v) => Ok(shown_all(&v.iter().map(content).collect::<Result<Vec<_>, _>>()?)),
                _ => Err("another form of result".into()),
            };
        }
        Op::Key(d, walk, k) => match down_value(&w.docs[*d], walk).map_err(e)? {
            Value::Object(o) => {
                let k = &w.keys[*k];
                match o.get(k).map_err(e)? {
                    Some(v) => {
                        if !o.contains_key(k).map_err(e)? {
                            return Err(format!("get finds {:?}, contains_key does not", k));
                        }
                        format!("{} {}", type_name(&v), shown(&content(&v)?))
                    }
                    None => "absent".into(),
                }
            }
            v => type_name(&v).into(),
        },
        Op::Index(d, walk, i) => match down_value(&w.docs[*d], walk).map_err(e)? {
            Value::Array(a) => match a.get(*i) {
                Ok(v) => format!("{} {}", type_name(&v), shown(&content(&v)?)),
                Err(YasonError::IndexOutOfBounds { len, index }) => format!("{} of {}", index, len),
                Err(e) => return Err(e.to_string()),
            },
            v => type_name(&v).into(),
        },
        Op::Parse(d) => {
            let t = json::compact(&w.vals[*d], &num_text);
            if json::parse(&t).map_or(true, |p| p.marker) {
                return Ok(shown(&w.vals[*d]));
            }
            let at = sc.out.len() % 64;
            sc.out.truncate(at);
            let y = Yason::parse_to(&mut sc.out, &t).map_err(eb)?;
            let a = shown(&content_of(y)?);
            let b = shown(&content_of(&*YasonBuf::parse(&t).map_err(eb)?)?);
            if a != b {
                return Err("the two ways of parsing give different content".into());
            }
            a
        }
        Op::Build(d) => {
            let p = straight(&w.vals[*d]);
            let a = owned(&p).map_err(eb)?;
            let at = sc.out.len() % 64;
            sc.out.truncate(at);
            let b = into_vec(&p, &mut sc.out).map_err(eb)?;
            if a.as_bytes() == b.as_bytes() && a.as_bytes() == &w.bytes[*d][..] { "same" } else { "other bytes than the first time" }.into()
        }
        Op::Serde(d) => {
            let b = bincode::serialize(&w.docs[*d]).map_err(|e| e.to_string())?;
            let y: YasonBuf = bincode::deserialize(&b).map_err(|e| e.to_string())?;
            shown(&content_of(&y)?)
        }
        Op::Readers(d) => {
            check_doc(&w.docs[*d], &w.vals[*d], &FULL)?;
            "as stored".into()
        }
        Op::Bad(kind, i) => {
            let y: &Yason = &w.docs[*i % w.docs.len()];
            let bad = &w.bad[*i % w.bad.len()];
            let refused = match kind {
                0 => YasonBuf::parse(bad).is_err(),
                1 => {
                    let at = sc.out.len() % 64;
                    sc.out.truncate(at);
                    Yason::parse_to(&mut sc.out, bad).is_err()
                }
                2 => PathExpression::from_str(bad).is_err(),
                3 => {
                    let n = json::compact(&w.vals[*i % w.docs.len()], &num_text).len();
                    let mut f = Full(n - 1 - (*i * 7) % n);
                    y.format_to(*i % 2 == 0, &mut f).is_err()
                }
                4 => {
                    // a nested container that is never finished
                    let mut b = ObjectBuilder::try_new(2, false).map_err(eb)?;
                    b.push_string("k", "left over").map_err(eb)?;
                    {
                        let mut a = b.push_array("a", 3).map_err(eb)?;
                        a.push_string("left over").map_err(eb)?;
                    }
                    b.finish().is_err()
                }
                _ => {
                    // a type it does not have
                    match y.data_type().map_err(e)? {
                        DataType::String => y.number().is_err() && y.object().is_err(),
                        _ => y.string().is_err(),
                    }
                }
            };
            if refused { "refused" } else { "accepted" }.into()
        }
    })
}

fn world(s: &mut Src) -> Result<World, String> {
    let mut w = World { docs: vec![], vals: vec![], bytes: vec![], paths: vec![], keys: vec![], bad: vec![] };
    for i in 0..2 + s.below(3) {
        // alike more often than not: what was remembered of one must not be taken for the other
        let v = if i > 0 && s.chance(3, 5) {
            let k = s.below(i);
            let v = gen::tweak(s, &w.vals[k]);
            if v.fits() && v.depth() <= 100 { v } else { w.vals[k].clone() }
        } else {
            path_doc(s)
        };
        add(&mut w, v)?;
    }
    for _ in 0..1 + s.below(3) {
        let d = s.below(w.vals.len());
        let steps = gen_steps(s, &w.vals[d], true);
        let t = render(s, &steps, false);
        w.paths.push((parse_path(&t)?, steps, t));
    }
    for v in &w.vals {
        v.walk(&mut |x| {
            if let Val::Obj(m) = x {
                for (k, _) in m {
                    if w.keys.len() < 24 && !w.keys.contains(k) {
                        w.keys.push(k.clone());
                    }
                }
            }
        });
    }
    w.keys.push(String::new());
    w.keys.push("a".into());
    w.keys.push("absent".into());
    w.bad = ["", "{", "[1,", "$..", "{\"a\":1}}", "[\"left over\", {\"k\": 1e500}]", "$.a[", "nul"].iter().map(|x| x.to_string()).collect();
    s.note(|| format!("documents:\n{}\npaths: {}", w.vals.iter().map(brief).collect::<Vec<_>>().join("\n"), w.paths.iter().map(|p| p.2.clone()).collect::<Vec<_>>().join("  ")));
    Ok(w)
}
fn add(w: &mut World, v: Val) -> R {
    let y = owned(&straight(&v)).map_err(|e| format!("building: {}", e))?;
    w.bytes.push(y.as_bytes().to_vec());
    w.docs.push(y);
    w.vals.push(v);
    Ok(())
}
fn unchanged(w: &World, when: &str) -> R {
    for (i, (y, b)) in w.docs.iter().zip(&w.bytes).enumerate() {
        if y.as_bytes() != &b[..] {
            return Err(format!("document {} is changed {}", i, when));
        }
    }
    Ok(())
}
fn check(op: &Op, w: &World, sc: &mut Scratch, when: &str) -> R {
    let Some(want) = due(op, w) else {
        return Ok(());
    };
    let got = answer(op, w, sc).map_err(|e| format!("{:?} {}: {}", op, when, e))?;
    if got != want {
        return Err(format!("{:?} {}: answers {} instead of {}", op, when, clip(&got, 300), clip(&want, 300)));
    }
    Ok(())
}

/// sequences of operations, with documents replaced in between
fn histories(s: &mut Src) -> R {
    let mut w = world(s)?;
    let mut sc = Scratch { out: vec![0xA5; s.held()] };
    let n = 4 + s.below(24);
    let mut replaced = 0;
    let mut log = String::new();
    for i in 0..n {
        if s.chance(1, 8) {
            let d = s.below(w.docs.len());
            let v = if s.chance(1, 2) { gen::tweak(s, &w.vals[d]) } else { path_doc(s) };
            if v.fits() && v.depth() <= 100 {
                let y = owned(&straight(&v)).map_err(|e| format!("building: {}", e))?;
                w.bytes[d] = y.as_bytes().to_vec();
                if s.chance(1, 2) {
                    w.docs[d].clone_from_yason(&y);
                } else {
                    w.docs[d] = y;
                }
                let _ = writeln!(log, "document {} becomes {}", d, brief(&v));
                w.vals[d] = v;
                replaced += 1;
            }
        }
        let op = gen_op(s, &w);
        let _ = writeln!(log, "{:?}", op);
        if let Err(m) = check(&op, &w, &mut sc, &format!("as operation {}", i)) {
            s.note(|| log.clone());
            return Err(m);
        }
    }
    s.note(|| log.clone());
    s.label_if(replaced > 0, "documents replaced");
    s.label_if(n > 15, "more than 15 operations");
    s.count(hash_bytes(log.as_bytes()).wrapping_add(w.vals.iter().fold(0, |a, v| a ^ v.hash())));
    unchanged(&w, "by operations that only read")
}

/// a few operations in turn, thousands of times: nothing runs full, wears out or is counted
fn repeated(s: &mut Src) -> R {
    let mut w = World { docs: vec![], vals: vec![], bytes: vec![], paths: vec![], keys: vec![], bad: vec![] };
    for _ in 0..1 + s.below(2) {
        let v = if s.chance(1, 2) { doc_with(s, &gen::Cfg::small()) } else { path_doc(s) };
        let v = if json::compact(&v, &num_text).len() > 400 { Val::Arr(vec![Val::Str("x".into()), Val::Null]) } else { v };
        add(&mut w, v)?;
    }
    let d = s.below(w.vals.len());
    let steps = gen_steps(s, &w.vals[d], true);
    let t = render(s, &steps, false);
    w.paths.push((parse_path(&t)?, steps, t));
    w.keys = vec!["a".into(), "absent".into()];
    w.bad = vec!["{".into(), "$..".into(), "[1,".into()];
    let mut ops: Vec<(Op, String)> = Vec::new();
    for _ in 0..1 + s.below(4) {
        let op = gen_op(s, &w);
        if let Some(d) = due(&op, &w) {
            ops.push((op, d));
        }
    }
    if ops.is_empty() {
        return Ok(());
    }
    let rounds = 1 + s.wide(if cfg!(debug_assertions) { 3_000 } else { 9_000 });
    s.note(|| format!("documents: {}\npath: {}\n{} rounds of {:?}", w.vals.iter().map(brief).collect::<Vec<_>>().join("  "), w.paths[0].2, rounds, ops.iter().map(|o| &o.0).collect::<Vec<_>>()));
    s.count(hash_bytes(format!("{:?}{}", ops, rounds).as_bytes()));
    s.label_if(rounds > 1_000, "more than 1000 rounds");
    let mut sc = Scratch::default();
    for r in 0..rounds {
        for (op, want) in &ops {
            match answer(op, &w, &mut sc) {
                Ok(g) if g == *want => {}
                Ok(g) => return Err(format!("{:?} in round {}: {} instead of {}", op, r, clip(&g, 300), clip(want, 300))),
                Err(e) => return Err(format!("{:?} in round {}: {}", op, r, e)),
            }
        }
    }
    unchanged(&w, "by operations that only read")
}

enum Paused<'a> {
    Entries(ObjectIter<'a>, Vec<(String, Val)>),
    Keys(KeyIter<'a>, Vec<String>),
    Values(ValueIter<'a>, Vec<Val>),
    Elements(ArrayIter<'a>, Vec<Val>),
}

/// iterators stopped half-way while others run and other operations happen
fn interleaved(s: &mut Src) -> R {
    let w = world(s)?;
    let mut sc = Scratch::default();
    // containers to iterate over: the documents and what is in them
    let mut places: Vec<(usize, Vec<u64>)> = Vec::new();
    for d in 0..w.docs.len() {
        places.push((d, vec![]));
        for a in 0..3 {
            places.push((d, vec![a]));
            places.push((d, vec![a, s.raw(3)]));
        }
    }
    let e = |e: YasonError| e.to_string();
    let mut its: Vec<(Paused, usize)> = Vec::new();
    for _ in 0..2 + s.below(4) {
        let (d, walk) = s.pick(&places).clone();
        let v = down(&w.vals[d], &walk);
        match (down_value(&w.docs[d], &walk).map_err(e)?, v) {
            (Value::Object(o), Val::Obj(m)) => {
                let m = members(m);
                its.push((
                    match s.raw(2) {
                        0 => Paused::Entries(o.iter().map_err(e)?, m.iter().map(|x| (x.0.to_string(), x.1.canon())).collect()),
                        1 => Paused::Keys(o.key_iter().map_err(e)?, m.iter().map(|x| x.0.to_string()).collect()),
                        _ => Paused::Values(o.value_iter().map_err(e)?, m.iter().map(|x| x.1.canon()).collect()),
                    },
                    0,
                ));
            }
            (Value::Array(a), Val::Arr(m)) => its.push((Paused::Elements(a.iter().map_err(e)?, m.iter().map(|x| x.canon()).collect()), 0)),
            _ => {}
        }
    }
    if its.is_empty() {
        return Ok(());
    }
    s.label_if(its.len() > 1, "several iterators");
    for step in 0..its.len() * 6 {
        if s.chance(1, 4) {
            let op = gen_op(s, &w);
            check(&op, &w, &mut sc, "between steps of iterators")?;
        }
        let k = s.below(its.len());
        let (it, at) = &mut its[k];
        let wrong = |got: String, want: String| Err(format!("step {} of iterator {}, after {} steps of all: {} instead of {}", *at, k, step, clip(&got, 200), clip(&want, 200)));
        let end = "the end".to_string();
        match it {
            Paused::Entries(i, m) => {
                let got = match i.next() {
                    None => end.clone(),
                    Some(x) => x.map_err(e).and_then(|(k, v)| Ok(format!("{:?} {}", k, shown(&content(&v)?))))?,
                };
                let want = m.get(*at).map_or(end, |(k, v)| format!("{:?} {}", k, shown(v)));
                if got != want {
                    return wrong(got, want);
                }
            }
            Paused::Keys(i, m) => {
                let got = match i.next() {
                    None => end.clone(),
                    Some(x) => format!("{:?}", x.map_err(e)?),
                };
                let want = m.get(*at).map_or(end, |k| format!("{:?}", k));
                if got != want {
                    return wrong(got, want);
                }
            }
            Paused::Values(i, m) => {
                let got = match i.next() {
                    None => end.clone(),
                    Some(x) => shown(&content(&x.map_err(e)?)?),
                };
                let want = m.get(*at).map_or(end, shown);
                if got != want {
                    return wrong(got, want);
                }
            }
            Paused::Elements(i, m) => {
                let got = match i.next() {
                    None => end.clone(),
                    Some(x) => shown(&content(&x.map_err(e)?)?),
                };
                let want = m.get(*at).map_or(end, shown);
                if got != want {
                    return wrong(got, want);
                }
            }
        }
        *at += 1;
    }
    s.count(w.vals.iter().fold(its.len() as u64, |a, v| a.rotate_left(5) ^ v.hash()));
    unchanged(&w, "by operations that only read")
}

/// the same documents and paths used by several threads at once
fn threads(s: &mut Src) -> R {
    const THREADS: usize = 4;
    let w = world(s)?;
    let mut ops: Vec<(Op, String)> = Vec::new();
    for _ in 0..4 + s.below(10) {
        let op = gen_op(s, &w);
        if let Some(d) = due(&op, &w) {
            ops.push((op, d));
        }
    }
    if ops.is_empty() {
        return Ok(());
    }
    s.note(|| format!("{:?}", ops.iter().map(|o| &o.0).collect::<Vec<_>>()));
    s.count(hash_bytes(format!("{:?}", ops).as_bytes()));
    let rounds = 2 + s.below(3);
    let gate = std::sync::Barrier::new(THREADS);
    let shared = Shared(&w);
    let failed: Vec<String> = std::thread::scope(|sp| {
        let handles: Vec<_> = (0..THREADS)
            .map(|t| {
                let (shared, ops, gate) = (&shared, &ops, &gate);
                sp.spawn(move || {
                    let w = shared.0;
                    let mut sc = Scratch::default();
                    gate.wait();
                    for r in 0..rounds {
                        for i in 0..ops.len() {
                            // all at the same point, or each at its own
                            let k = if r % 2 == 0 { i } else { (i + t * 3) % ops.len() };
                            let (op, want) = &ops[k];
                            match answer(op, w, &mut sc) {
                                Ok(g) if g == *want => {}
                                Ok(g) => return Some(format!("{:?} while other threads work: {} instead of {}", op, clip(&g, 300), clip(want, 300))),
                                Err(e) => return Some(format!("{:?} while other threads work: {}", op, e)),
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        handles
            .into_iter()
            .filter_map(|h| match h.join() {
                Ok(r) => r,
                Err(_) => Some("an operation panics while other threads work".to_string()),
            })
            .collect()
    });
    if let Some(m) = failed.first() {
        return Err(m.clone());
    }
    unchanged(&w, "by threads that only read")
}

pub static C22: Prop = Prop {
    id: "C22",
    rule: "a case counts when at least one operation was compared; distinct by documents and operations",
    subs: &[
        Sub { name: "histories", f: histories, mode: Mode::Random, quick: 40_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "repeated", f: repeated, mode: Mode::Random, quick: 250, thorough: 10_000, profiles: BOTH },
        Sub { name: "interleaved", f: interleaved, mode: Mode::Random, quick: 30_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "threads", f: threads, mode: Mode::Random, quick: 10_000, thorough: 300_000, profiles: BOTH },
    ],
    assumptions: &[
        "thread schedules are those of the operating system, with all threads started together; races that need a narrower window may be missed",
        "texts whose strings contain the number marker of the JSON library are left out when parsing",
    ],
    known: no_known,
};
