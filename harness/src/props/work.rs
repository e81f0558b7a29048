//! C23: the work an operation does and the memory it asks for stay in proportion to what it has to
//! look at. Work is counted in comparisons executed by the code under test (sanitizer coverage), which
//! is the same on every machine; memory in bytes asked of the allocator. The bounds are an order of
//! magnitude above what the code needs, so that only another rate of growth passes them.
use super::path::{path_doc, reference};
use super::*;
use crate::dirty;
use crate::drive::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::str::FromStr;
use yason::*;
use yvbase::dec::Dec;
use yvbase::gen::family_key;
use yvbase::json;
use yvbase::path::{eval_counted, gen_steps, render, Step};
use yvbase::run::*;

thread_local! {
    static WORST: RefCell<BTreeMap<String, (f64, f64)>> = const { RefCell::new(BTreeMap::new()) };
}

/// runs `f`, at most `steps` comparisons and `bytes` bytes of memory
fn within<T>(what: &str, steps: u64, bytes: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    let before = yvcov::steps();
    let (r, asked) = dirty::asked(f);
    let done = yvcov::steps() - before;
    if let Ok(file) = std::env::var("YVH_CAL") {
        let k = what.split(',').next().unwrap().to_string();
        let (a, b) = (done as f64 / steps as f64, asked as f64 / bytes as f64);
        let new = WORST.with(|w| {
            let mut w = w.borrow_mut();
            let e = w.entry(k.clone()).or_insert((0.0, 0.0));
            let n = a > e.0 * 1.02 || b > e.1 * 1.02;
            *e = (e.0.max(a), e.1.max(b));
            n
        });
        if new {
            use std::io::Write;
            if let Ok(mut o) = std::fs::OpenOptions::new().append(true).create(true).open(file) {
                let _ = o.write_all(format!("{}\t{:.3}\t{:.3}\t{}\t{}\t{}\n", k, a, b, done, asked, what).as_bytes());
            }
        }
        return Ok(r);
    }
    if done > steps {
        return Err(format!("{}: {} comparisons, at most {} are in proportion", what, done, steps));
    }
    if asked > bytes {
        return Err(format!("{}: {} bytes of memory asked for, at most {} are in proportion", what, asked, bytes));
    }
    Ok(r)
}

fn log2(n: usize) -> u64 {
    64 - (n as u64).leading_zeros() as u64
}

/// reaching one thing
const REACH: u64 = 1000;
const REACH_MEM: u64 = 2048;
fn keyed(n: usize) -> u64 {
    REACH + 250 * log2(n)
}

/// how many: mostly large
fn count_of(s: &mut Src) -> usize {
    match s.weighted(&[20, 40, 25, 15]) {
        0 => s.below(20),
        1 => 200 + s.below(4_000),
        2 => 4_000 + s.below(20_000),
        _ => 24_000 + s.below(65_536 - 24_000),
    }
}

fn small(i: usize, kind: u64) -> Val {
    match (kind, i % 4) {
        (0, _) | (3, 0) => Val::Num(Dec::from_i64(i as i64)),
        (1, _) | (3, 1) => Val::Str(format!("v{}", i)),
        (2, _) | (3, 2) => Val::Bool(i % 3 == 0),
        (3, _) => Val::Null,
        (4, _) => Val::Arr(vec![Val::Bool(true), Val::Null]),
        _ => Val::Obj(vec![("k".into(), Val::Num(Dec::from_i64(7)))]),
    }
}
/// a value that takes long to walk through
fn heavy(k: u64) -> Val {
    match k {
        0 => Val::Str("long ".repeat(20_000)),
        1 => Val::Arr((0..6_000).map(|i| small(i, 0)).collect()),
        2 => Val::Obj((0..3_000).map(|i| (format!("{:05}", i), Val::Null)).collect()),
        _ => Val::Arr((0..2_000).map(|i| small(i, 5)).collect()),
    }
}

struct Wide {
    n: usize,
    keys: Vec<String>,
    val: Val,
    doc: YasonBuf,
    /// where the long values are
    long: Vec<usize>,
}

/// a wide container, some of its values long
fn wide(s: &mut Src, object: bool) -> Result<Wide, String> {
    let n = count_of(s);
    let (style, salt) = (s.raw(5), s.raw(255));
    let kind = s.raw(5);
    let prefix = if s.chance(1, 4) && n < 6_000 { "common ".repeat(s.below(40)) } else { String::new() };
    let mut vals: Vec<Val> = (0..n).map(|i| small(i, kind)).collect();
    let mut long = Vec::new();
    for _ in 0..s.below(4) {
        if n > 0 {
            let i = s.below(n);
            vals[i] = heavy(s.raw(3));
            long.push(i);
        }
    }
    let keys: Vec<String> = if object { (0..n).map(|i| format!("{}{}", prefix, family_key(style, salt, i))).collect() } else { vec![] };
    let val = if object { Val::Obj(keys.iter().cloned().zip(vals).collect()) } else { Val::Arr(vals) };
    let p = match straight(&val) {
        Plan::Obj(_, mut m) => {
            m.sort_by(|a, b| yvbase::model::key_cmp(&a.0, &b.0));
            Plan::Obj(true, m)
        }
        p => p,
    };
    let doc = owned(&p).map_err(|e| format!("building: {}", e))?;
    s.note(|| format!("{} of {} elements, keys of style {} behind {:?}, values of kind {}", if object { "object" } else { "array" }, n, style, prefix, kind));
    s.label(if object { "object" } else { "array" });
    s.label_if(n > 1_000, "more than 1000 elements");
    s.label_if(n > 20_000, "more than 20000 elements");
    if n > 1 {
        s.count((n as u64) << 20 | style << 12 | kind << 8 | salt);
    }
    Ok(Wide { n, keys, val, doc, long })
}

fn lookups(s: &mut Src) -> R {
    let w = wide(s, true)?;
    let e = |e: YasonError| e.to_string();
    let y: &Yason = &w.doc;
    let o = within("the object of a document", REACH, REACH_MEM, || y.object())?.map_err(e)?;
    within("length of an object", REACH, REACH_MEM, || o.len())?.map_err(e)?;
    within("emptiness of an object", REACH, REACH_MEM, || o.is_empty())?.map_err(e)?;
    within("type of a document", REACH, REACH_MEM, || y.data_type())?.map_err(e)?;
    let lim = keyed(w.n);
    for i in 0..8 {
        let present = i < 5 && w.n > 0;
        let k = if present {
            w.keys[match i {
                0 => 0,
                1 => w.n - 1,
                2 | 3 if i - 2 < w.long.len() => w.long[i - 2],
                _ => s.below(w.n),
            }]
            .clone()
        } else {
            let base = if w.n > 0 { w.keys[s.below(w.n)].clone() } else { "k".into() };
            match s.raw(4) {
                0 => base + "z",
                1 => base.chars().skip(1).collect(),
                2 => String::new(),
                3 => "z".repeat(base.len()),
                _ => "0".repeat(base.len()),
            }
        };
        let t = format!(", key {:?} of {} members", yvbase::engine::clip(&k, 60), w.n);
        let got = within(&format!("get by key{}", t), lim, REACH_MEM, || o.get(&k))?.map_err(e)?;
        within(&format!("contains_key{}", t), lim, REACH_MEM, || o.contains_key(&k))?.map_err(e)?;
        within(&format!("is_null by key{}", t), lim, REACH_MEM, || o.is_null(&k).is_ok())?;
        within(&format!("type_of by key{}", t), lim, REACH_MEM, || o.type_of(&k).is_ok())?;
        // the right getter and wrong ones
        let all = within(&format!("typed getters by key{}", t), 6 * lim, REACH_MEM * 6, || {
            (o.object(&k).is_ok(), o.array(&k).is_ok(), o.string(&k).is_ok(), o.number(&k).is_ok(), o.bool(&k).is_ok())
        })?;
        if got.is_none() && all != (true, true, true, true, true) {
            return Err(format!("a typed getter fails for the absent key {:?}", k));
        }
    }
    // the first and the last few
    let mut it = within("an object iterator", REACH, REACH_MEM, || o.iter())?.map_err(e)?;
    let mut ks = within("a key iterator", REACH, REACH_MEM, || o.key_iter())?.map_err(e)?;
    let mut vs = within("a value iterator", REACH, REACH_MEM, || o.value_iter())?.map_err(e)?;
    for i in 0..w.n.min(6) + 1 {
        let t = format!(", step {} of {}", i, w.n);
        within(&format!("object iterator step{}", t), REACH, REACH_MEM, || it.next().is_some())?;
        within(&format!("key iterator step{}", t), REACH, REACH_MEM, || ks.next().is_some())?;
        within(&format!("value iterator step{}", t), REACH, REACH_MEM, || vs.next().is_some())?;
    }
    let n = w.n as u64;
    let t = format!(", {} members", w.n);
    within(&format!("all members{}", t), REACH + 300 * n, REACH_MEM, || o.iter().map(|i| i.count()))?.map_err(e)?;
    within(&format!("all keys{}", t), REACH + 300 * n, REACH_MEM, || o.key_iter().map(|i| i.count()))?.map_err(e)?;
    within(&format!("all values{}", t), REACH + 300 * n, REACH_MEM, || o.value_iter().map(|i| i.count()))?.map_err(e)?;
    Ok(())
}

fn elements(s: &mut Src) -> R {
    let w = wide(s, false)?;
    let e = |e: YasonError| e.to_string();
    let y: &Yason = &w.doc;
    let a = within("the array of a document", REACH, REACH_MEM, || y.array())?.map_err(e)?;
    within("length of an array", REACH, REACH_MEM, || a.len())?.map_err(e)?;
    within("emptiness of an array", REACH, REACH_MEM, || a.is_empty())?.map_err(e)?;
    for i in 0..8 {
        let k = match i {
            0 => 0,
            1 => w.n.saturating_sub(1),
            2 => w.n,
            3 => usize::MAX,
            4 | 5 if i - 4 < w.long.len() => w.long[i - 4],
            _ => s.below(w.n + 1),
        };
        let t = format!(", index {} of {}", k, w.n);
        within(&format!("get by index{}", t), REACH, REACH_MEM, || a.get(k).is_ok())?;
        within(&format!("is_null by index{}", t), REACH, REACH_MEM, || a.is_null(k).is_ok())?;
        within(&format!("type_of by index{}", t), REACH, REACH_MEM, || a.type_of(k).is_ok())?;
        within(&format!("typed getters by index{}", t), 6 * REACH, 6 * REACH_MEM, || {
            (a.object(k).is_ok(), a.array(k).is_ok(), a.string(k).is_ok(), a.number(k).is_ok(), a.bool(k).is_ok())
        })?;
    }
    let mut it = within("an array iterator", REACH, REACH_MEM, || a.iter())?.map_err(e)?;
    for i in 0..w.n.min(6) + 1 {
        within(&format!("array iterator step, step {} of {}", i, w.n), REACH, REACH_MEM, || it.next().is_some())?;
    }
    let n = w.n as u64;
    within(&format!("all elements, {}", w.n), REACH + 300 * n, REACH_MEM, || a.iter().map(|i| i.count()))?.map_err(e)?;
    Ok(())
}

struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        self.0 += t.len() as u64;
        Ok(())
    }
}

/// everything that has to go through the whole document
fn whole(s: &mut Src) -> R {
    let (val, doc) = match s.weighted(&[40, 40, 20]) {
        0 => {
            let w = wide(s, true)?;
            (w.val, w.doc)
        }
        1 => {
            let w = wide(s, false)?;
            (w.val, w.doc)
        }
        _ => {
            let v = any_doc(s);
            let d = owned(&straight(&v)).map_err(|e| format!("building: {}", e))?;
            (v, d)
        }
    };
    let y: &Yason = &doc;
    let len = y.as_bytes().len() as u64;
    let t = format!(", a document of {} bytes", len);
    for pretty in [false, true] {
        let mut k = Sink(0);
        y.format_to(pretty, &mut k).map_err(|e| format!("formatting: {}", e))?;
        let size = k.0;
        let mut k = Sink(0);
        within(&format!("formatting{}", t), REACH + 200 * size, REACH_MEM * 4 + 64 * size, || y.format_to(pretty, &mut k).is_ok())?;
        within(&format!("displaying{}", t), REACH + 200 * size, REACH_MEM * 4 + 64 * size, || write!(k, "{}", y.format(pretty)).is_ok())?;
    }
    // equality with a copy and with something that differs
    let copy = within(&format!("to_yason_buf{}", t), REACH, REACH_MEM + 4 * len, || y.to_yason_buf())?.map_err(|e| e.to_string())?;
    let copy2 = within(&format!("clone{}", t), REACH, REACH_MEM + 4 * len, || copy.clone())?;
    let mut over = Scalar::null().map_err(|e| e.to_string())?;
    within(&format!("clone_from_yason{}", t), REACH, REACH_MEM + 4 * len, || over.clone_from_yason(y))?;
    within(&format!("equality{}", t), REACH + 200 * len, REACH_MEM * 4 + 64 * len, || y.equals(&copy2).is_ok())?;
    let other = gen::tweak(s, &val);
    if other.fits() && other.depth() <= 100 {
        let o = owned(&straight(&other)).map_err(|e| format!("building: {}", e))?;
        let len = len + o.as_bytes().len() as u64;
        within(&format!("equality with another document{}", t), REACH + 200 * len, REACH_MEM * 4 + 64 * len, || (y.equals(&o).is_ok(), o.equals(y).is_ok()))?;
    }
    // building: arrays in order and objects in order of their keys
    let p = in_order(&val);
    within(&format!("building{}", t), REACH * 2 + 400 * len, REACH_MEM * 4 + 64 * len, || owned(&p).is_ok())?;
    let mut v = vec![];
    within(&format!("building into a vector{}", t), REACH * 2 + 400 * len, REACH_MEM * 4 + 64 * len, || into_vec(&p, &mut v).is_ok())?;
    // parsing
    let text = json::compact(&val, &num_text);
    let tl = text.len() as u64;
    within(&format!("parsing{}", t), REACH * 4 + 1500 * tl, REACH_MEM * 8 + 1500 * tl, || YasonBuf::parse(&text).is_ok())?;
    let cut: String = text.chars().take(text.chars().count() / 2).collect();
    within(&format!("parsing half of a text{}", t), REACH * 4 + 1500 * tl, REACH_MEM * 8 + 1500 * tl, || YasonBuf::parse(&cut).is_ok())?;
    Ok(())
}

fn in_order(v: &Val) -> Plan {
    match v {
        Val::Obj(m) => {
            let mut p: Vec<(String, Plan)> = m.iter().map(|(k, x)| (k.clone(), in_order(x))).collect();
            p.sort_by(|a, b| yvbase::model::key_cmp(&a.0, &b.0));
            Plan::Obj(true, p)
        }
        Val::Arr(a) => Plan::Arr(a.iter().map(in_order).collect()),
        v => straight(v),
    }
}

/// evaluating paths: in proportion to the values that have to be visited
fn queries(s: &mut Src) -> R {
    let (val, doc, wide_steps) = match s.weighted(&[40, 30, 30]) {
        0 => {
            let v = path_doc(s);
            classify(s, &v);
            let d = owned(&straight(&v)).map_err(|e| format!("building: {}", e))?;
            (v, d, None)
        }
        1 => {
            let w = wide(s, true)?;
            let k = if w.n > 0 && s.chance(4, 5) { w.keys[s.below(w.n)].clone() } else { "none".into() };
            (w.val, w.doc, Some(Step::Key(k)))
        }
        _ => {
            let w = wide(s, false)?;
            let st = yvbase::path::gen_sub(s, w.n);
            (w.val, w.doc, Some(st))
        }
    };
    for round in 0..3 {
        let mut steps = match &wide_steps {
            Some(st) if round > 0 => vec![st.clone()],
            _ => gen_steps(s, &val, true),
        };
        if round == 2 && wide_steps.is_some() {
            steps.push(Step::Key("k".into()));
        }
        if let Some(Step::Key(k)) = steps.first() {
            if !yvbase::path::quotable(k) {
                continue;
            }
        }
        if reference(&val, &steps).is_none() && wide_steps.is_none() {
            continue;
        }
        let Ok((items, visits)) = eval_counted(&val, &steps, 400_000) else {
            continue;
        };
        let selected = items.len() as u64;
        let t = render(s, &steps, false);
        let path = PathExpression::from_str(&t).map_err(|e| format!("{}: {}", t, e))?;
        // members are found by search, so a visit may take a logarithm
        let v = visits as u64 + selected + steps.len() as u64;
        let (lim, mem) = (REACH * 4 + 800 * v, REACH_MEM * 4 + 400 * v);
        let w = format!(", {} visiting {} values of a document of {} bytes", yvbase::engine::clip(&t, 80), visits, doc.as_bytes().len());
        within(&format!("a wrapped query{}", w), lim, mem, || path.query(&doc, true, None, None).is_ok())?;
        within(&format!("an unwrapped query{}", w), lim, mem, || path.query(&doc, false, None, None).is_ok())?;
        within(&format!("an existence test{}", w), lim, mem, || path.exists(&doc).is_ok())?;
        s.label_if(visits > 1000, "more than 1000 values visited");
        if steps.len() > 0 {
            s.count(yvbase::engine::hash_bytes(t.as_bytes()) ^ visits as u64);
        }
    }
    Ok(())
}

const PIECES: [&str; 20] = [
    ".a", ".*", "[*]", "[0]", "[1,2,3]", " ", "\t\n", "..a", ".\"quoted name\"", "[0 to 5]", "[last-1]", "[ 1 , last ]", "[", "]", ".", "..", "\"", "9", ",1", ".ключ",
];

/// path texts, long and mostly repetitive, well formed or not
fn path_texts(s: &mut Src) -> R {
    let mut t = String::from("$");
    for _ in 0..1 + s.below(3) {
        let p = *s.pick(&PIECES);
        let n = match s.raw(2) {
            0 => 1 + s.below(5),
            1 => 50 + s.below(300),
            _ => 300 + s.below(6_000),
        };
        t.push_str(&p.repeat(n));
    }
    if s.chance(1, 2) {
        let list: String = (0..s.below(3_000)).map(|i| format!("{},", i)).collect();
        t.push_str(&format!("[{}0]", list));
    }
    if s.chance(1, 4) {
        t.push_str(&format!(".\"{}\"", "x".repeat(s.below(30_000))));
    }
    if s.chance(1, 4) {
        t.push_str(s.pick(&[".count()", ".size()", ".type()", ".count(", " ", "x", "\u{0}"]));
    }
    s.note(|| yvbase::engine::clip(&t, 300));
    s.count(yvbase::engine::hash_bytes(t.as_bytes()));
    s.label_if(t.len() > 1_000, "more than 1000 bytes");
    let n = t.len() as u64;
    let r = within(&format!("parsing a path, {} bytes", n), REACH * 2 + 600 * n, REACH_MEM * 4 + 3000 * n, || PathExpression::from_str(&t).is_ok())?;
    s.label(if r { "well formed" } else { "malformed" });
    Ok(())
}

pub static C23: Prop = Prop {
    id: "C23",
    rule: "a case counts when its container has at least two elements or its path has a step; distinct by shape or text",
    subs: &[
        Sub { name: "lookups", f: lookups, mode: Mode::Random, quick: 1_600, thorough: 60_000, profiles: BOTH },
        Sub { name: "elements", f: elements, mode: Mode::Random, quick: 1_600, thorough: 60_000, profiles: BOTH },
        Sub { name: "whole", f: whole, mode: Mode::Random, quick: 800, thorough: 30_000, profiles: BOTH },
        Sub { name: "queries", f: queries, mode: Mode::Random, quick: 12_000, thorough: 400_000, profiles: BOTH },
        Sub { name: "path-texts", f: path_texts, mode: Mode::Random, quick: 8_000, thorough: 300_000, profiles: BOTH },
    ],
    assumptions: &[
        "work is counted in comparisons executed in the crate's code, memory in bytes asked of the allocator; moving bytes within memory that is already there is not counted",
        "the bounds leave about an order of magnitude over what the code needs now",
        "building objects in an order other than that of their keys is left out: it moves offsets by design",
    ],
    known: no_known,
};
