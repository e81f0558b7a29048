//! C11 selection, C12 subscripts, C13 query modes, C14 path text.
use super::text::text;
use super::*;
use crate::drive::*;
use crate::read::*;
use std::str::FromStr;
use yason::*;
use yvbase::bnf;
use yvbase::dec::Dec;
use yvbase::engine::clip;
use yvbase::json;
use yvbase::path::*;
use yvbase::run::*;

const BUDGET: usize = 6_000;
const MAX_NODES: usize = 60_000;

fn item_val(i: &Item) -> Val {
    match i {
        Item::Ref(v) => (*v).clone(),
        Item::Num(n) => Val::Num(Dec::from_i64(*n as i64)),
        Item::Name(t) => Val::Str(t.to_string()),
    }
}

/// what the reference selects, unless that is too much to compare
pub fn reference(doc: &Val, steps: &[Step]) -> Option<Vec<Val>> {
    reference_within(doc, steps, BUDGET, MAX_NODES)
}

fn reference_within(doc: &Val, steps: &[Step], budget: usize, max: usize) -> Option<Vec<Val>> {
    let items = eval(doc, steps, budget).ok()?;
    let mut nodes = 0;
    for i in &items {
        nodes += if let Item::Ref(v) = i { v.nodes() } else { 1 };
        if nodes > max {
            return None;
        }
    }
    Some(items.iter().map(|i| item_val(i).canon()).collect())
}

pub fn parse_path(t: &str) -> Result<PathExpression, String> {
    PathExpression::from_str(&crate::dirty::snug(t)).map_err(|e| format!("the path {:?} is refused: {}", t, e))
}

fn show(vs: &[Val]) -> String {
    clip(&format!("{} values: {}", vs.len(), vs.iter().take(6).map(brief).collect::<Vec<_>>().join(", ")), 400)
}

/// the selected values behind any form of result; None when there is no result
fn results(q: &QueriedValue) -> Result<Option<Vec<Val>>, String> {
    let all = |v: &[Value]| -> Result<Option<Vec<Val>>, String> { Ok(Some(v.iter().map(content).collect::<Result<Vec<_>, _>>()?)) };
    match q {
        QueriedValue::None => Ok(None),
        QueriedValue::Value(v) => all(std::slice::from_ref(v)),
        QueriedValue::Values(v) => all(v),
        QueriedValue::ValuesRef(v) => all(v),
        QueriedValue::Yason(y) => match content_of(y)? {
            Val::Arr(a) => Ok(Some(a)),
            v => Err(format!("the result document is {}", brief(&v))),
        },
    }
}

fn same(got: &Option<Vec<Val>>, want: &[Val], what: &dyn Fn() -> String) -> R {
    match got {
        None if want.is_empty() => Ok(()),
        None => Err(format!("{} gives no result, due: {}", what(), show(want))),
        Some(g) if g.is_empty() => Err(format!("{} gives an empty list instead of no result", what())),
        Some(g) if g[..] == want[..] => Ok(()),
        Some(g) => {
            let i = g.iter().zip(want).take_while(|(a, b)| a == b).count();
            Err(format!("{} selects {}; due {}; first difference at {}", what(), show(g), show(want), i))
        }
    }
}

fn classify_path(s: &mut Src, steps: &[Step], want: &[Val]) {
    for st in steps {
        s.label(match st {
            Step::Key(_) => "member step",
            Step::AnyKey => "member wildcard",
            Step::Sub(_) => "subscript",
            Step::AnyElem => "element wildcard",
            Step::Desc(_) => "descendant step",
            Step::Func(_) => "item method",
        });
    }
    s.label(match want.len() {
        0 => "selects nothing",
        1 => "selects one value",
        _ => "selects several values",
    });
}

// ---- C11 ----------------------------------------------------------------------------------------

pub fn path_doc(s: &mut Src) -> Val {
    let mut c = match s.weighted(&[60, 35, 5]) {
        0 => gen::Cfg::normal(),
        1 => gen::Cfg::small(),
        _ => gen::Cfg { nodes: 200, ..gen::Cfg::normal() },
    };
    c.max_str = 300;
    let v = gen::gen_val(s, &c);
    if !s.bulk && s.chance(1, 3) {
        // few distinct keys at many levels, arrays in between
        return bushy(s, 4);
    }
    v
}

fn bushy(s: &mut Src, d: usize) -> Val {
    let kind = s.weighted(&[20, 40, 40]);
    if d == 0 || kind == 0 {
        return match s.raw(4) {
            0 => Val::Num(Dec::from_i64(s.raw(99) as i64)),
            1 => Val::Str(s.pick(&["", "x", "yy"]).to_string()),
            2 => Val::Bool(s.chance(1, 2)),
            3 => Val::Null,
            _ => if s.chance(1, 2) { Val::Arr(vec![]) } else { Val::Obj(vec![]) },
        };
    }
    let n = s.below(4);
    if kind == 1 {
        Val::Arr((0..n).map(|_| bushy(s, d - 1)).collect())
    } else {
        let mut m: Vec<(String, Val)> = Vec::new();
        for _ in 0..n {
            let k = s.pick(&["a", "b", "c", "bb", "", "d e"]).to_string();
            if !m.iter().any(|x| x.0 == k) {
                m.push((k, bushy(s, d - 1)));
            }
        }
        Val::Obj(m)
    }
}

fn select(s: &mut Src) -> R {
    let v = path_doc(s);
    classify(s, &v);
    let d = build(s, &v)?;
    let k = 1 + s.below(if s.bulk { 8 } else { 3 });
    for _ in 0..k {
        let steps = gen_steps(s, &v, true);
        let w = s.chance(1, 3);
        let t = render(s, &steps, w);
        let want = if s.bulk { reference_within(&v, &steps, 300_000, 600_000) } else { reference(&v, &steps) };
        let Some(want) = want else {
            s.label("too large to compare");
            continue;
        };
        s.note(|| format!("path: {}", t));
        classify_path(s, &steps, &want);
        if !steps.is_empty() {
            s.count(yvbase::engine::hash_bytes(t.as_bytes()));
        }
        let p = parse_path(&t)?;
        let q = p.query(d.yason(), true, None, None).map_err(|e| format!("{}: {}", t, e))?;
        same(&results(&q)?, &want, &|| t.clone())?;
    }
    Ok(())
}

/// a container of very many values, all of which (or a few, anywhere) are selected through it by each kind of step
fn wide(s: &mut Src) -> R {
    let n = match s.weighted(&[40, 40, 20]) {
        0 => 200 + s.below(5_000),
        1 => 5_000 + s.below(60_000),
        _ => 65_535 - s.below(40),
    };
    let every = *s.pick(&[1usize, 1, 2, 97, 20_011]);
    let shift = s.below(every);
    let kind = s.below(4);
    let item = |i: usize| {
        let num = Val::Num(Dec::from_i64(i as i64));
        if i % every != shift {
            return Val::Bool(i % 2 == 0);
        }
        match kind {
            0 => num,
            1 => Val::Obj(vec![("a".into(), num)]),
            2 => Val::Arr(vec![num]),
            _ => Val::Obj(vec![("b".into(), Val::Arr(vec![Val::Obj(vec![("a".into(), num)])]))]),
        }
    };
    let object = s.chance(1, 3);
    let wide = if object { Val::Obj((0..n).map(|i| (format!("{:05}", i), item(i))).collect()) } else { Val::Arr((0..n).map(item).collect()) };
    let v = if s.chance(1, 3) { Val::Obj(vec![("a".into(), wide), ("zz".into(), Val::Null)]) } else { wide };
    s.count((n as u64) << 20 | (every as u64) << 4 | (kind as u64) << 2 | object as u64);
    s.label_if(n > 40_000, "more than 40000 values");
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    let far = n - 1 - s.below(n);
    let texts = ["$..a", "$.a", "$.*", "$[*]", "$.*.a", "$[*].a", "$[*][*]", "$..b", "$.a[*]", "$.a.*", "$..b.a", "$.b[0].a"];
    let t = match s.below(8) {
        0 => format!("$[{} to last]", far),
        1 => format!("$[last - {} to {}, 0].a", s.below(n), far),
        2 => format!("$.a[0, {}, last]", far),
        _ => s.pick(&texts).to_string(),
    };
    s.note(|| format!("path {} over {} values of kind {}, every {} from {}", t, n, kind, every, shift));
    let steps = recognise(&t).ok_or("HARNESS: malformed path")?;
    let Some(want) = reference_within(&v, &steps, 2_000_000, 2_000_000) else {
        s.label("too large to compare");
        return Ok(());
    };
    s.label_if(want.len() > 10_000, "more than 10000 results");
    let p = parse_path(&t)?;
    let q = p.query(&y, true, None, None).map_err(|e| format!("{}: {}", t, e))?;
    same(&results(&q)?, &want, &|| t.clone())?;
    let e = p.exists(&y).map_err(|e| format!("{}: {}", t, e))?;
    if e == want.is_empty() {
        return Err(format!("exists gives {} where {} values are selected: {}", e, want.len(), t));
    }
    let one = p.query(&y, false, None, None);
    match (&one, want.len()) {
        (Ok(QueriedValue::None), 0) | (Ok(QueriedValue::Value(_)), 1) | (Err(YasonError::MultiValuesWithoutWrapper), 2..) => Ok(()),
        _ => Err(format!("without wrapper another outcome for {} values: {}", want.len(), t)),
    }
}

/// paths of many steps, the nesting steps as deep as documents go and between them the steps that leave a value that
/// is no array where it is
fn many_steps(s: &mut Src) -> R {
    let n = 4 + s.size(500);
    let nest = 1 + s.below(9);
    let mut v = s.pick(&[Val::Str("hit".into()), Val::Bool(true), Val::Obj(vec![]), Val::Arr(vec![Val::Null, Val::Bool(false)])]).clone();
    let mut steps: Vec<Step> = Vec::new();
    let mut descs = 0;
    if s.chance(1, 4) {
        steps.push(Step::Func(*s.pick(&[Func::Count, Func::Size, Func::Type])));
    }
    for _ in 0..n {
        let arr = matches!(v, Val::Arr(_));
        if v.depth() < 95 && (arr || s.chance(nest as u64, 10)) {
            let k = match s.below(12) {
                0 => "name".repeat(1 + s.size(200)),
                i => ["a", "b", "key", "é"][i % 4].to_string(),
            };
            let other = if s.chance(1, 3) { Some(Val::Str("miss".into())) } else { None };
            match s.weighted(&[50, 10, if arr { 5 } else { 20 }, if arr { 3 } else { 10 }, if descs < 2 { 5 } else { 0 }]) {
                0 => {
                    let mut m = vec![(k.clone(), v)];
                    if let Some(o) = other {
                        m.push((format!("{}x", k), o));
                    }
                    v = Val::Obj(m);
                    steps.push(Step::Key(k));
                }
                1 => {
                    v = Val::Obj(vec![(k, v)]);
                    steps.push(Step::AnyKey);
                }
                2 => {
                    let len = 1 + s.below(5);
                    let at = s.below(len);
                    let mut e = vec![Val::Null; len];
                    e[at] = v;
                    v = Val::Arr(e);
                    steps.push(Step::Sub(vec![match s.below(3) {
                        0 => Cell::One(Ix::At(at as u64)),
                        1 => Cell::One(Ix::Last((len - 1 - at) as u64)),
                        _ => Cell::Range(Ix::At(at as u64), Ix::At(at as u64)),
                    }]));
                }
                3 => {
                    v = Val::Arr(other.into_iter().chain([v]).collect());
                    steps.push(Step::AnyElem);
                }
                _ => {
                    descs += 1;
                    v = Val::Obj(vec![("deeper".into(), Val::Arr(vec![Val::Obj(vec![(k.clone(), v)])]))]);
                    steps.push(Step::Desc(k));
                }
            }
        } else {
            steps.push(match s.below(6) {
                0 => Step::AnyElem,
                1 => Step::Sub(vec![Cell::One(Ix::Last(0))]),
                2 => Step::Sub(vec![Cell::Range(Ix::At(0), Ix::At(s.below(9) as u64))]),
                3 => Step::Sub(vec![Cell::One(Ix::At(7)), Cell::One(Ix::At(0)), Cell::One(Ix::Last(0))]),
                _ => Step::Sub(vec![Cell::One(Ix::At(0))]),
            });
        }
    }
    steps.reverse();
    let w = s.chance(1, 4);
    let t = render(s, &steps, w);
    s.note(|| clip(&t, 300));
    s.count(yvbase::engine::hash_bytes(t.as_bytes()));
    s.label_if(steps.len() > 64, "more than 64 steps");
    s.label_if(steps.len() > 255, "more than 255 steps");
    let Some(want) = reference(&v, &steps) else {
        s.label("too large to compare");
        return Ok(());
    };
    s.label_if(!want.is_empty(), "something is selected");
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    let p = parse_path(&t)?;
    let q = p.query(&y, true, None, None).map_err(|e| format!("{}: {}", clip(&t, 300), e))?;
    same(&results(&q)?, &want, &|| clip(&t, 300))?;
    if !has_func(&steps) {
        let e = p.exists(&y).map_err(|e| format!("{}: {}", clip(&t, 300), e))?;
        if e == want.is_empty() {
            return Err(format!("exists gives {} where {} values are selected: {}", e, want.len(), clip(&t, 300)));
        }
    }
    Ok(())
}

/// the same with large documents
fn select_bulk(s: &mut Src) -> R {
    s.bulk = true;
    select(s)
}

/// paths evaluated again and again over several documents, with and without shared buffers
fn reuse(s: &mut Src) -> R {
    let vs: Vec<Val> = (0..2 + s.below(2)).map(|_| path_doc(s)).collect();
    for v in &vs {
        s.count(v.hash());
    }
    s.note(|| vs.iter().map(brief).collect::<Vec<_>>().join("\n"));
    let mut docs = Vec::new();
    for v in &vs {
        docs.push(build(s, v)?);
    }
    let mut paths = Vec::new();
    for i in 0..2 + s.below(2) {
        let steps = gen_steps(s, &vs[i % vs.len()], true);
        let t = render(s, &steps, false);
        s.note(|| format!("path {}: {}", i, t));
        paths.push((parse_path(&t)?, steps, t));
    }
    let mut held: Vec<(QueriedValue, usize, usize, Vec<Val>)> = Vec::new();
    let mut shared: Vec<Value> = Vec::new();
    let mut bytes: Vec<u8> = Vec::new();
    for _ in 0..4 + s.below(5) {
        let (d, p) = (s.below(docs.len()), s.below(paths.len()));
        let (path, steps, t) = &paths[p];
        let Some(want) = reference(&vs[d], steps) else {
            continue;
        };
        let y = docs[d].yason();
        match s.raw(3) {
            0 => {
                let q = path.query(y, true, None, None).map_err(|e| format!("{}: {}", t, e))?;
                same(&results(&q)?, &want, &|| format!("{} over document {}", t, d))?;
                held.push((q, p, d, want));
            }
            1 => {
                let q = path.query(y, true, Some(&mut shared), None).map_err(|e| format!("{}: {}", t, e))?;
                same(&results(&q)?, &want, &|| format!("{} over document {} into a used buffer", t, d))?;
            }
            2 => {
                if want.len() < 60_000 {
                    let q = path.query(y, true, None, Some(&mut bytes)).map_err(|e| format!("{}: {}", t, e))?;
                    same(&results(&q)?, &want, &|| format!("{} over document {} into a used result buffer", t, d))?;
                }
            }
            _ => {
                // an evaluation that may fail must not disturb the next ones
                let _ = path.query(y, false, Some(&mut shared), Some(&mut bytes)).map(|_| ());
                let _ = path.exists(y);
            }
        }
    }
    s.label_if(held.len() > 1, "several results alive");
    for (q, p, d, want) in &held {
        same(&results(q)?, want, &|| format!("{} over document {}, looked at later,", paths[*p].2, d))?;
    }
    Ok(())
}

/// every path of up to two steps (plus method) from a fixed set over fixed documents
fn small_paths(s: &mut Src) -> R {
    let doc = s.raw(SMALL_DOCS.len() as u64 - 1) as usize;
    let n = s.raw(3) as usize;
    let mut idx = Vec::new();
    for _ in 0..n {
        idx.push(s.raw(SMALL_STEPS.len() as u64 - 1) as usize);
    }
    let f = s.raw(3) as usize;
    if !s.mine() {
        return Ok(());
    }
    if n == 3 && !s.thorough && (idx[0] + idx[1] * 3 + idx[2] * 7 + doc) % 5 != 0 {
        return Ok(());
    }
    let v = json::parse(SMALL_DOCS[doc]).ok_or("fixed document")?.val;
    let mut t = String::from("$");
    for i in idx {
        t.push_str(SMALL_STEPS[i]);
    }
    t.push_str(["", ".count()", ".size()", ".type()"][f]);
    s.note(|| format!("{} over {}", t, SMALL_DOCS[doc]));
    s.count(yvbase::engine::hash_bytes(t.as_bytes()).wrapping_add(doc as u64));
    let steps = recognise(&t).ok_or("fixed path")?;
    let want = reference(&v, &steps).ok_or("fixed documents are small")?;
    classify_path(s, &steps, &want);
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    let p = parse_path(&t)?;
    let q = p.query(&y, true, None, None).map_err(|e| format!("{}: {}", t, e))?;
    same(&results(&q)?, &want, &|| t.clone())?;
    if f == 0 {
        let e = p.exists(&y).map_err(|e| e.to_string())?;
        if e == want.is_empty() {
            return Err(format!("exists says {} but {} values are selected", e, want.len()));
        }
    }
    Ok(())
}
const SMALL_STEPS: [&str; 17] = [
    ".a", ".b", ".*", "..a", "..b", "[*]", "[0]", "[1]", "[last]", "[last-1]", "[0 to 1]", "[1 to 0]", "[last to 0]", "[1,0,0]", "[1 to last, 0]", "[5]", "[2 to 4]",
];
const SMALL_DOCS: [&str; 16] = [
    "1",
    "null",
    "{}",
    "[]",
    r#"{"a":1}"#,
    r#"{"b":{"a":[1,{"a":2}]},"a":{"b":3,"a":null}}"#,
    r#"[{"a":1},{"a":[2,3]},{"b":4}]"#,
    r#"[[{"a":1},{"a":2}],[{"a":3}],[]]"#,
    r#"{"a":[[1,2],[3,[4,5]]],"b":[{}]}"#,
    r#"[[[]]]"#,
    r#"{"a":{"a":{"a":{"a":true}}}}"#,
    r#"{"a":[{"b":[{"a":"x"},"y"]},{"b":"z"}],"b":["w"]}"#,
    r#"[null,false,"s",1.5,{},[]]"#,
    r#"[{"a":[]},{"a":{}},[]]"#,
    r#"{"b":[[[{"b":1}]]],"c":{"b":{"b":2}}}"#,
    r#"{"aa":{"a":1,"b":2},"b":[0],"a":[1,2,3,4,5,6]}"#,
];

pub static C11: Prop = Prop {
    id: "C11",
    rule: "a case counts when its path has a step (select, small-paths); distinct by document and path",
    subs: &[
        Sub { name: "select", f: select, mode: Mode::Random, quick: 150_000, thorough: 4_000_000, profiles: BOTH },
        Sub { name: "select-bulk", f: select_bulk, mode: Mode::Random, quick: 600, thorough: 20000, profiles: BOTH },
        Sub { name: "many-steps", f: many_steps, mode: Mode::Random, quick: 10_000, thorough: 300_000, profiles: BOTH },
        Sub { name: "wide", f: wide, mode: Mode::Random, quick: 400, thorough: 15_000, profiles: BOTH },
        Sub { name: "reuse", f: reuse, mode: Mode::Random, quick: 40_000, thorough: 1_200_000, profiles: BOTH },
        Sub { name: "small-paths", f: small_paths, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
    ],
    assumptions: &["the meaning of a path is that of the reference evaluator yvbase::path::eval", "paths of at most about 500 steps"],
    known: no_known,
};

// ---- C12 ----------------------------------------------------------------------------------------

/// an element that tells its position, of varying type
fn element(i: usize, n: usize) -> Val {
    let d = |k: usize| Val::Num(Dec::from_i64(k as i64));
    if n > 64 {
        return d(i);
    }
    match i % 6 {
        0 => d(i),
        1 => Val::Str(format!("e{}", i)),
        2 => Val::Arr(vec![d(i), d(i)]),
        3 => Val::Obj(vec![("i".into(), d(i))]),
        4 if i == 4 => Val::Null,
        5 if i == 5 => Val::Bool(true),
        _ => Val::Str(format!("{}", i)),
    }
}

fn subscript_on(s: &mut Src, v: &Val, y: &Yason, steps: &[Step], t: &str) -> R {
    let Ok(items) = eval(v, steps, 600_000) else {
        s.label("too large to compare");
        return Ok(());
    };
    let p = parse_path(t)?;
    let q = p.query(y, true, None, None).map_err(|e| format!("{}: {}", t, e))?;
    let what = || format!("{} over {}", t, clip(&brief(v), 120));
    let got: &[Value] = match &q {
        QueriedValue::None => &[],
        QueriedValue::Values(v) if !v.is_empty() => v,
        _ => return Err(format!("{}: unexpected form of result", what())),
    };
    if got.len() != items.len() {
        return Err(format!("{} selects {} values, due are {}", what(), got.len(), items.len()));
    }
    for (i, (g, w)) in got.iter().zip(&items).enumerate() {
        let w = item_val(w);
        if content(g)? != w.canon() {
            return Err(format!("{}: value {} of the selection is {}, due is {}", what(), i, brief(&content(g)?), brief(&w)));
        }
    }
    let e = p.exists(y).map_err(|e| format!("{}: exists: {}", what(), e))?;
    if e == items.is_empty() {
        return Err(format!("{}: exists says {} but {} values are selected", what(), e, items.len()));
    }
    match p.query(y, false, None, None) {
        Ok(QueriedValue::None) if items.is_empty() => {}
        Ok(QueriedValue::Value(_)) if items.len() == 1 => {}
        Err(YasonError::MultiValuesWithoutWrapper) if items.len() > 1 => {}
        Ok(_) => return Err(format!("{}: unwrapped query gives another outcome for {} values", what(), items.len())),
        Err(e) => return Err(format!("{}: unwrapped query of {} values: {}", what(), items.len(), e)),
    }
    Ok(())
}

fn non_array(k: usize) -> Val {
    match k {
        0 => Val::Obj(vec![("a".into(), Val::Null)]),
        1 => Val::Obj(vec![]),
        2 => Val::Str("s".into()),
        3 => Val::Num(Dec::from_i64(7)),
        4 => Val::Bool(false),
        _ => Val::Null,
    }
}

/// every single subscript and range with small numbers over every small length
fn small_cells(s: &mut Src) -> R {
    const M: u64 = 7;
    let ix = |c: u64| if c <= M { Ix::At(c) } else { Ix::Last(c - M - 1) };
    // lengths 0..=6, then non-arrays, then both below another step
    let target = s.raw(15) as usize;
    let range = s.raw(1) == 1;
    let a = s.raw(2 * M + 1);
    let cell = if range {
        let b = s.raw(2 * M + 1);
        Cell::Range(ix(a), ix(b))
    } else {
        Cell::One(ix(a))
    };
    if !s.mine() {
        return Ok(());
    }
    let (v, pre) = match target {
        0..=6 => (Val::Arr((0..target).map(|i| element(i, target)).collect()), vec![]),
        7..=12 => (non_array(target - 7), vec![]),
        13 => (Val::Arr((0..4).map(|n| Val::Arr((0..n).map(|i| element(i, n)).collect())).chain([non_array(0), non_array(2)]).collect()), vec![Step::AnyElem]),
        14 => (Val::Obj(vec![("k".into(), Val::Arr((0..3).map(|i| element(i, 3)).collect())), ("l".into(), Val::Arr(vec![])), ("m".into(), Val::Bool(true))]), vec![Step::AnyKey]),
        _ => (Val::Arr((0..5).map(|n| Val::Arr((0..n).map(|i| element(i, n)).collect())).collect()), vec![]),
    };
    let mut steps = pre;
    steps.push(Step::Sub(vec![cell.clone()]));
    if target == 15 {
        steps.push(Step::Sub(vec![cell.clone()]));
    }
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    let mut zeros = Src::new(vec![], yvbase::engine::Tail::Zero, yvbase::engine::Rng::new(1), &SHM);
    let t = render(&mut zeros, &steps, false);
    s.note(|| format!("{} over {}", t, brief(&v)));
    s.count(yvbase::engine::hash_bytes(t.as_bytes()).wrapping_add(target as u64));
    subscript_on(s, &v, &y, &steps, &t)?;
    // the same as part of a list
    for other in [Cell::One(Ix::At(0)), Cell::One(Ix::Last(1)), Cell::Range(Ix::At(1), Ix::Last(0)), Cell::Range(Ix::At(3), Ix::At(5))] {
        for first in [true, false] {
            let mut st = steps.clone();
            *st.last_mut().unwrap() = Step::Sub(if first { vec![cell.clone(), other.clone()] } else { vec![other.clone(), cell.clone()] });
            let t = render(&mut zeros, &st, false);
            subscript_on(s, &v, &y, &st, &t)?;
        }
    }
    Ok(())
}
struct SyncShm(std::sync::OnceLock<usize>);
static SHM_CELL: SyncShm = SyncShm(std::sync::OnceLock::new());
struct LazyShm;
impl std::ops::Deref for LazyShm {
    type Target = yvbase::engine::Shm;
    fn deref(&self) -> &Self::Target {
        let p = *SHM_CELL.0.get_or_init(|| Box::leak(Box::new(yvbase::engine::Shm::private())) as *const _ as usize);
        unsafe { &*(p as *const yvbase::engine::Shm) }
    }
}
static SHM: LazyShm = LazyShm;

fn random_cells(s: &mut Src) -> R {
    let v = match s.weighted(&[70, 20, 10]) {
        0 => {
            let n = s.size(65_535);
            Val::Arr((0..n).map(|i| element(i, n)).collect())
        }
        1 => Val::Arr((0..s.below(5)).map(|_| { let n = s.below(6); if n == 5 { non_array(s.below(6)) } else { Val::Arr((0..n).map(|i| element(i, n)).collect()) } }).collect()),
        _ => non_array(s.below(6)),
    };
    let n = if let Val::Arr(a) = &v { a.len() } else { 1 };
    let mut steps = vec![gen_sub(s, n)];
    if n < 100 && s.chance(1, 3) {
        steps.push(gen_sub(s, 4));
    }
    if s.chance(1, 300) {
        // a long list
        let k = 100 + s.below(2000);
        steps = vec![Step::Sub((0..k).map(|i| Cell::One(if i % 3 == 0 { Ix::Last(0) } else { Ix::At((i % (n + 1)) as u64) })).collect())];
        s.label("subscript list over 100 entries");
    }
    let w = s.chance(1, 3);
    let t = render(s, &steps, w);
    s.note(|| format!("{} over {} elements", clip(&t, 300), n));
    s.count(v.hash().wrapping_add(yvbase::engine::hash_bytes(t.as_bytes())));
    s.label_if(n > 255, "over 255 elements");
    s.label_if(n == 0, "empty array");
    s.label_if(!matches!(v, Val::Arr(_)), "not an array");
    if let Step::Sub(c) = &steps[0] {
        s.label_if(c.len() > 1, "several subscripts");
        for c in c {
            match c {
                Cell::One(Ix::At(_)) => s.label("index"),
                Cell::One(Ix::Last(_)) => s.label("last-n"),
                Cell::Range(..) => s.label("range"),
            }
        }
    }
    let d = build_plan(s, &straight(&v))?;
    subscript_on(s, &v, d.yason(), &steps, &t)
}

pub static C12: Prop = Prop {
    id: "C12",
    rule: "every case applies a subscript list to a value; distinct by value and path",
    subs: &[
        Sub { name: "small-cells", f: small_cells, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "random-cells", f: random_cells, mode: Mode::Random, quick: 80_000, thorough: 2_500_000, profiles: BOTH },
    ],
    assumptions: &["the positions a subscript denotes are those of yvbase::path::positions"],
    known: no_known,
};

// ---- C13 ----------------------------------------------------------------------------------------

fn fmt_q(q: &QueriedValue, pretty: bool) -> Result<String, String> {
    let mut t = String::new();
    q.format_to(pretty, &mut t).map_err(|e| format!("formatting a result: {}", e))?;
    Ok(t)
}

fn check_texts(q: &QueriedValue, want: &Option<Val>, what: &str) -> R {
    for pretty in [false, true] {
        let got = fmt_q(q, pretty)?;
        let due = match want {
            None => String::new(),
            Some(v) if pretty => json::pretty(v, &num_text),
            Some(v) => json::compact(v, &num_text),
        };
        if got != due {
            return Err(format!("{}: the result formats (pretty: {}) as {} instead of {}", what, pretty, clip(&got, 200), clip(&due, 200)));
        }
    }
    Ok(())
}

fn modes(s: &mut Src) -> R {
    let v = path_doc(s);
    classify(s, &v);
    let d = build(s, &v)?;
    let y = d.yason();
    let steps = gen_steps(s, &v, true);
    let w = s.chance(1, 4);
    let t = render(s, &steps, w);
    let want = if s.bulk { reference_within(&v, &steps, 60_000, 150_000) } else { reference(&v, &steps) };
    let Some(want) = want else {
        s.label("too large to compare");
        return Ok(());
    };
    s.note(|| format!("path: {}", t));
    classify_path(s, &steps, &want);
    let p = parse_path(&t)?;
    all_modes(s, y, &p, &t, has_func(&steps), &want)
}

/// the same with large documents
fn modes_bulk(s: &mut Src) -> R {
    s.bulk = true;
    modes(s)
}

fn all_modes(s: &mut Src, y: &Yason, p: &PathExpression, t: &str, func: bool, want: &[Val]) -> R {
    let n = want.len();
    match p.exists(y) {
        Err(YasonError::InvalidPathExpression) if func => {}
        Ok(e) if !func && e == (n > 0) => {}
        Ok(e) => return Err(format!("{}: exists says {} for {} selected values (method: {})", t, e, n, func)),
        Err(e) => return Err(format!("{}: exists: {}", t, e)),
    }
    let whole = if n == 0 { None } else { Some(Val::Arr(want.to_vec())) };
    for with_wrapper in [false, true] {
        for bufs in 0..4u8 {
            let what = format!("{} (wrapper {}, query buffer {}, result buffer {})", t, with_wrapper, bufs & 1 == 1, bufs & 2 == 2);
            // buffers with something in them
            let mut qb: Vec<Value> = Vec::new();
            for _ in 0..s.below(3) {
                qb.push(match s.raw(2) {
                    0 => Value::Null,
                    1 => Value::String("left over"),
                    _ => Value::try_from(y).map_err(|e| e.to_string())?,
                });
            }
            let k = s.held();
            let mut rb: Vec<u8> = (0..k).map(|i| i as u8).collect();
            let r = p.query(y, with_wrapper, if bufs & 1 == 1 { Some(&mut qb) } else { None }, if bufs & 2 == 2 { Some(&mut rb) } else { None });
            if !with_wrapper && (func || n > 1) {
                match r {
                    Err(YasonError::MultiValuesWithoutWrapper) => continue,
                    Err(e) => return Err(format!("{}: {} instead of the multiple-values error", what, e)),
                    Ok(_) => return Err(format!("{}: accepted although {}", what, if func { "it has an item method".to_string() } else { format!("{} values are selected", n) })),
                }
            }
            let q = r.map_err(|e| format!("{}: {}", what, e))?;
            if !with_wrapper {
                let got = match &q {
                    QueriedValue::None => None,
                    QueriedValue::Value(v) => Some(content(v)?),
                    QueriedValue::Yason(y) if bufs & 2 == 2 => Some(content_of(y)?),
                    _ => return Err(format!("{}: a list comes back", what)),
                };
                if got.as_ref() != want.first() {
                    return Err(format!("{}: gives {:?}, due {:?}", what, got.as_ref().map(brief), want.first().map(brief)));
                }
                check_texts(&q, &got, &what)?;
                continue;
            }
            same(&results(&q)?, want, &|| what.clone())?;
            check_texts(&q, &whole, &what)?;
            match &q {
                QueriedValue::Yason(r) => {
                    if bufs & 2 == 0 {
                        return Err(format!("{}: a document without a result buffer", what));
                    }
                    let (got, _) = bnf::decode(r.as_bytes(), &num_bytes).map_err(|e| format!("{}: the result document is malformed: {}", what, e))?;
                    if got.canon() != Val::Arr(want.to_vec()) {
                        return Err(format!("{}: the bytes of the result document decode to {}", what, brief(&got)));
                    }
                    if got.depth() > 100 {
                        // deeper than a document of its own may be
                        continue;
                    }
                    let a = owned(&straight(&Val::Arr(want.to_vec()))).map_err(|e| e.to_string())?;
                    if **r != *a {
                        return Err(format!("{}: the result document is unequal to the array of the selected values", what));
                    }
                    if text(r, false)? != text(&a, false)? {
                        return Err(format!("{}: the result document formats differently", what));
                    }
                }
                QueriedValue::Values(_) | QueriedValue::ValuesRef(_) if bufs & 2 == 2 => return Err(format!("{}: the result buffer is ignored", what)),
                QueriedValue::Values(_) if bufs & 1 == 1 => return Err(format!("{}: the query buffer is ignored", what)),
                QueriedValue::ValuesRef(_) if bufs & 1 == 0 => return Err(format!("{}: refers to a query buffer that was not given", what)),
                QueriedValue::Value(_) => return Err(format!("{}: a single value comes back", what)),
                _ => {}
            }
        }
    }
    Ok(())
}

fn small_modes(s: &mut Src) -> R {
    let doc = s.raw(SMALL_DOCS.len() as u64 - 1) as usize;
    let n = s.raw(2) as usize;
    let mut idx = Vec::new();
    for _ in 0..n {
        idx.push(s.raw(SMALL_STEPS.len() as u64 - 1) as usize);
    }
    let f = s.raw(3) as usize;
    if !s.mine() {
        return Ok(());
    }
    let v = json::parse(SMALL_DOCS[doc]).ok_or("fixed document")?.val;
    let mut t = String::from("$");
    for i in idx {
        t.push_str(SMALL_STEPS[i]);
    }
    t.push_str(["", ".count()", ".size()", ".type()"][f]);
    s.note(|| format!("{} over {}", t, SMALL_DOCS[doc]));
    s.count(yvbase::engine::hash_bytes(t.as_bytes()).wrapping_add(doc as u64));
    let steps = recognise(&t).ok_or("fixed path")?;
    let want = reference(&v, &steps).ok_or("fixed documents are small")?;
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    let p = parse_path(&t)?;
    let mut zeros = Src::new(vec![2, 1, 0, 9], yvbase::engine::Tail::Zero, yvbase::engine::Rng::new(1), &SHM);
    all_modes(&mut zeros, &y, &p, &t, f > 0, &want)
}

pub static C13: Prop = Prop {
    id: "C13",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "modes", f: modes, mode: Mode::Random, quick: 50_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "modes-bulk", f: modes_bulk, mode: Mode::Random, quick: 200, thorough: 10000, profiles: BOTH },
        Sub { name: "wide", f: wide, mode: Mode::Random, quick: 200, thorough: 8_000, profiles: BOTH },
        Sub { name: "small-modes", f: small_modes, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
    ],
    assumptions: &["an unwrapped query with a result buffer may return its single value in either form (the documentation and the code differ)"],
    known: no_known,
};

// ---- C14 ----------------------------------------------------------------------------------------

/// a document in which the path selects something wherever that is possible
fn witness(steps: &[Step]) -> Val {
    let mut v = Val::Str("hit".into());
    for st in steps.iter().rev() {
        v = match st {
            Step::Func(_) => v,
            Step::Key(k) => {
                let mut m = vec![(k.clone(), v)];
                for x in [k.trim().to_string(), format!("{} ", k), "a".to_string(), format!("{}b", k)] {
                    if !m.iter().any(|y| y.0 == x) {
                        m.push((x, Val::Str("miss".into())));
                    }
                }
                Val::Obj(m)
            }
            Step::AnyKey => Val::Obj(vec![("w".into(), v), ("miss".into(), Val::Null)]),
            Step::AnyElem => Val::Arr(vec![v, Val::Bool(false)]),
            Step::Desc(k) => {
                let mut m = vec![(k.clone(), Val::Str("first".into()))];
                let x = if k == "z" { "y" } else { "z" };
                m.push((x.to_string(), Val::Arr(vec![Val::Obj(vec![(k.clone(), v)])])));
                Val::Obj(m)
            }
            Step::Sub(cells) => {
                let mut a: Vec<Val> = (0..13).map(|i| Val::Num(Dec::from_i64(100 + i))).collect();
                let at = cells.iter().find_map(|c| positions(c, 13).next()).unwrap_or(0);
                a[at] = v;
                Val::Arr(a)
            }
        };
        if v.depth() > 90 {
            break;
        }
    }
    v
}

/// the crate and the reference agree on the text, and on its meaning
fn judge_text(s: &mut Src, t: &str, doc: Option<&Val>) -> R {
    let want = recognise(t);
    let got = PathExpression::from_str(&crate::dirty::snug(t));
    s.label(if want.is_some() { "well formed" } else { "malformed" });
    let (steps, p) = match (want, got) {
        (None, Err(e)) => {
            if e.to_string().is_empty() {
                return Err("the error has no text".into());
            }
            return Ok(());
        }
        (None, Ok(p)) => return Err(format!("malformed path {:?} is accepted as {}", clip(t, 300), clip(&format!("{:?}", p), 300))),
        (Some(_), Err(e)) => return Err(format!("well-formed path {:?} is refused: {}", clip(t, 300), e)),
        (Some(st), Ok(p)) => (st, p),
    };
    let wit = witness(&steps);
    for v in [Some(&wit), doc].into_iter().flatten() {
        if v.depth() > 100 {
            continue;
        }
        let Some(want) = reference(v, &steps) else { continue };
        let y = owned(&straight(v)).map_err(|e| e.to_string())?;
        let q = p.query(&y, true, None, None).map_err(|e| format!("{}: {}", clip(t, 300), e))?;
        same(&results(&q)?, &want, &|| format!("{:?} over {}", clip(t, 200), clip(&brief(v), 200)))?;
    }
    Ok(())
}

fn well_formed(s: &mut Src) -> R {
    let v = path_doc(s);
    let steps = gen_steps(s, &v, true);
    let a = render(s, &steps, false);
    let b = render(s, &steps, true);
    let c = render(s, &steps, true);
    s.note(|| format!("{:?} {:?} {:?}", a, b, c));
    s.count(yvbase::engine::hash_bytes(b.as_bytes()));
    for t in [&a, &b, &c] {
        if recognise(t).as_ref() != Some(&steps) {
            return Err(format!("HARNESS: the reference misreads its own rendering {:?} of {:?}", t, steps));
        }
        judge_text(s, t, Some(&v))?;
    }
    Ok(())
}

fn edited(s: &mut Src) -> R {
    let v = bushy(s, 3);
    let steps = gen_steps(s, &v, true);
    let w = s.chance(1, 2);
    let mut t = render(s, &steps, w);
    let k = 1 + s.below(2);
    for _ in 0..k {
        t = mutate_text(s, &t);
    }
    s.note(|| format!("{:?}", t));
    s.count(yvbase::engine::hash_bytes(t.as_bytes()));
    judge_text(s, &t, Some(&v))
}

fn soup(s: &mut Src) -> R {
    let t = gen_text(s);
    s.note(|| format!("{:?}", t));
    s.count(yvbase::engine::hash_bytes(t.as_bytes()));
    judge_text(s, &t, None)
}

/// every text of up to six tokens from a small alphabet
fn all_short(s: &mut Src) -> R {
    const T: [&str; 16] = ["", ".", "[", "]", "*", "a", "0", "last", "to", "-", ",", "\"", "(", ")", " ", "\\"];
    let mut t = String::from("$");
    let n = if s.thorough { 6 } else { 5 };
    for _ in 0..n {
        let k = s.raw(T.len() as u64 - 1) as usize;
        if k == 0 {
            break;
        }
        t.push_str(T[k]);
    }
    if !s.mine() {
        return Ok(());
    }
    s.count(yvbase::engine::hash_bytes(t.as_bytes()));
    s.note(|| t.clone());
    let want = recognise(&t);
    match (want, PathExpression::from_str(&crate::dirty::snug(&t))) {
        (None, Err(_)) => Ok(()),
        (None, Ok(_)) => Err(format!("malformed path {:?} is accepted", t)),
        (Some(_), Err(e)) => Err(format!("well-formed path {:?} is refused: {}", t, e)),
        (Some(_), Ok(_)) => judge_text(s, &t, None),
    }
}

/// numbers around the limit, in every place a number can stand
fn numbers(s: &mut Src) -> R {
    let form = s.raw(5) as usize;
    let zeros = s.raw(2) as usize;
    let which = s.raw(13) as usize;
    if !s.mine() {
        return Ok(());
    }
    const N: [&str; 14] = [
        "0", "1", "9", "2147483646", "2147483647", "2147483648", "2147483650", "4294967295", "4294967296", "9999999999", "9223372036854775808", "18446744073709551616",
        "18446744073709551617", "340282366920938463463374607431768211456",
    ];
    let n = format!("{}{}", ["", "0", "000000000000000000000"][zeros], N[which]);
    let t = ["$[#]", "$[last-#]", "$[# to 3]", "$[3 to #]", "$[0,#]", "$[last - # to last-#]"][form].replace('#', &n);
    s.note(|| t.clone());
    s.count(yvbase::engine::hash_bytes(t.as_bytes()));
    let small = N[which].parse::<u64>().map_or(false, |x| x <= 2147483647);
    if recognise(&t).is_some() != small {
        return Err(format!("HARNESS: the reference is wrong about {}", t));
    }
    judge_text(s, &t, Some(&Val::Arr((0..12).map(|i| element(i, 12)).collect())))
}

/// very long texts of every kind
fn long(s: &mut Src) -> R {
    let kind = s.below(14);
    let n = match s.weighted(&[50, 30, 20]) {
        0 => s.size(3_000),
        1 => 3_000 + s.below(30_000),
        _ => 30_000 + s.below(300_000),
    };
    let bad = s.chance(1, 3);
    let unit = [".a", "[0]", "[0,1]", "..b", ".*", "[*]", ".\"k\"", " ", "0,", "[", ".", "last,", "\\n", "é"][kind];
    let body = unit.repeat(n);
    let mut t = match kind {
        8 | 11 => format!("$[{}1]", body),
        12 | 13 => format!("$.\"{}\"", body),
        _ => format!("${}", body),
    };
    if bad {
        let tail = *s.pick(&["]", "x", "\"", "..", "[1", "\\", ".size"]);
        t.push_str(tail);
    }
    s.note(|| clip(&t, 100));
    s.count((kind as u64) << 40 | (n as u64) << 1 | bad as u64);
    s.label_if(t.len() > 65_536, "text over 65536 bytes");
    let want = recognise(&t);
    match (&want, PathExpression::from_str(&crate::dirty::snug(&t))) {
        (None, Err(_)) => Ok(()),
        (None, Ok(_)) => Err(format!("malformed path {:?} is accepted", clip(&t, 100))),
        (Some(_), Err(e)) => Err(format!("well-formed path {:?} is refused: {}", clip(&t, 100), e)),
        (Some(st), Ok(_)) if st.len() <= 300 && t.len() < 20_000 => judge_text(s, &t, None),
        _ => Ok(()),
    }
}

pub static C14: Prop = Prop {
    id: "C14",
    rule: "every case is a path text; distinct by text",
    subs: &[
        Sub { name: "all-short", f: all_short, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "numbers", f: numbers, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "well-formed", f: well_formed, mode: Mode::Random, quick: 60_000, thorough: 2_000_000, profiles: BOTH },
        Sub { name: "edited", f: edited, mode: Mode::Random, quick: 150_000, thorough: 4_000_000, profiles: BOTH },
        Sub { name: "soup", f: soup, mode: Mode::Random, quick: 200_000, thorough: 6_000_000, profiles: BOTH },
        Sub { name: "many-steps", f: many_steps, mode: Mode::Random, quick: 6_000, thorough: 200_000, profiles: BOTH },
        Sub { name: "long", f: long, mode: Mode::Random, quick: 600, thorough: 20_000, profiles: BOTH },
    ],
    assumptions: &["the path grammar is that of the reference recogniser yvbase::path::recognise"],
    known: no_known,
};
