//! C01 content, C02 binary grammar, C03 determinism.
use super::*;
use crate::dirty;
use crate::drive::*;
use crate::read::*;
use yason::*;
use yvbase::bnf;
use yvbase::dec::Dec;
use yvbase::engine::hash_bytes;
use yvbase::model::key_cmp;
use yvbase::run::*;

// ---- C01 ----------------------------------------------------------------------------------------

fn read_back(s: &mut Src) -> R {
    let v = any_doc(s);
    let d = build(s, &v)?;
    let o = if v.nodes() < 200 && s.chance(1, 3) { FULL } else { LIGHT };
    check_doc(d.yason(), &v, &o)?;
    if content_of(d.yason())? != v.canon() {
        return Err("the content read through the iterators differs from what was pushed".into());
    }
    Ok(())
}

/// the same with large documents
fn read_back_bulk(s: &mut Src) -> R {
    s.bulk = true;
    read_back(s)
}

/// all small objects: every set of up to three members, every order of pushing, every kind of value
fn small_objects(s: &mut Src) -> R {
    let keys = ["", "a", "b", "aa"];
    let n = s.raw(3) as usize;
    let mut m: Vec<(String, Val)> = Vec::new();
    for _ in 0..n {
        let free: Vec<&str> = keys.iter().copied().filter(|k| !m.iter().any(|x| x.0 == *k)).collect();
        let k = free[s.below(free.len())].to_string();
        let v = match s.raw(6) {
            0 => Val::Null,
            1 => Val::Bool(true),
            2 => Val::Num(Dec::from_i64(12)),
            3 => Val::Str("x".into()),
            4 => Val::Arr(vec![]),
            5 => Val::Obj(vec![]),
            _ => Val::Arr(vec![Val::Bool(false), Val::Null]),
        };
        m.push((k, v));
    }
    if !s.mine() {
        return Ok(());
    }
    let v = Val::Obj(m);
    classify(s, &v);
    let p = straight(&v);
    let y = owned(&p).map_err(|e| e.to_string())?;
    check_doc(&y, &v, &FULL)?;
    let nested = Val::Arr(vec![Val::Str("ab".into()), v.clone()]);
    let y = owned(&straight(&nested)).map_err(|e| e.to_string())?;
    check_doc(&y, &nested, &FULL)
}

/// all arrays of up to four elements over the kinds of values
fn small_arrays(s: &mut Src) -> R {
    let n = s.raw(4) as usize;
    let a: Vec<Val> = (0..n)
        .map(|_| match s.raw(6) {
            0 => Val::Null,
            1 => Val::Bool(false),
            2 => Val::Bool(true),
            3 => Val::Num(Dec::from_i64(-5)),
            4 => Val::Str("é".into()),
            5 => Val::Arr(vec![Val::Null]),
            _ => Val::Obj(vec![("k".into(), Val::Bool(true))]),
        })
        .collect();
    if !s.mine() {
        return Ok(());
    }
    let v = Val::Arr(a);
    classify(s, &v);
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    check_doc(&y, &v, &FULL)
}

/// lengths around every boundary of the length encodings
fn lengths(s: &mut Src) -> R {
    const L: [usize; 26] = [
        0, 1, 2, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 2097151, 2097152,
        2097153,
    ];
    let n = L[s.below(L.len())];
    let place = s.raw(4);
    if !s.mine() {
        return Ok(());
    }
    let fill: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
    let v = match place {
        0 => Val::Str(fill),
        1 => Val::Arr(vec![Val::Str(fill), Val::Bool(true), Val::Num(Dec::from_i64(3))]),
        2 => Val::Obj(vec![("b".into(), Val::Str(fill)), ("a".into(), Val::Num(Dec::from_i64(3)))]),
        3 => {
            if n > 65535 {
                return Ok(());
            }
            Val::Obj(vec![(fill, Val::Str("v".into())), ("other".into(), Val::Null), ("q".repeat(300), Val::Bool(true))])
        }
        _ => {
            if n > 65535 {
                return Ok(());
            }
            Val::Arr((0..n).map(|i| if i % 3 == 0 { Val::Null } else { Val::Bool(i % 2 == 0) }).collect())
        }
    };
    classify(s, &v);
    // nothing may be drawn from here on: the enumeration is over the choices above
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    check_doc(&y, &v, &LIGHT)?;
    let mut buf = vec![1u8, 2, 3];
    let z = into_vec(&straight(&v), &mut buf).map_err(|e| e.to_string())?;
    check_doc(z, &v, &LIGHT)?;
    conforms(&y, &v)?;
    conforms(z, &v)
}

pub static C01: Prop = Prop {
    id: "C01",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "read-back", f: read_back, mode: Mode::Random, quick: 90_000, thorough: 3_000_000, profiles: BOTH },
        Sub { name: "read-back-bulk", f: read_back_bulk, mode: Mode::Random, quick: 600, thorough: 20000, profiles: BOTH },
        Sub { name: "long-vectors", f: long_vectors, mode: Mode::Random, quick: 150, thorough: 5000, profiles: BOTH },
        Sub { name: "small-objects", f: small_objects, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "small-arrays", f: small_arrays, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "lengths", f: lengths, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: REL },
    ],
    assumptions: &[
        "keys pushed into one object are distinct, and objects declared sorted are pushed in key order (the builders' contract)",
        "the reference model (yvbase::model, yvbase::dec) is right about what was pushed",
    ],
    known: no_known,
};

/// one vector that holds a great deal already takes one document of each kind after another
pub fn long_vectors(s: &mut Src) -> R {
    let top = match s.weighted(&[40, 30, 20, 10]) {
        0 => 70_000,
        1 => 300_000,
        2 => 1 << 21,
        _ => (1 << 24) + 100,
    };
    let pre = if s.chance(1, 3) { top - s.below(200) } else { s.below(top) };
    let mut buf = vec![0x5Au8; pre];
    let tiny = gen::Cfg { nodes: 12, bytes: 300, max_count: 12, max_str: 60, ..gen::Cfg::small() };
    let mut vs = vec![
        Val::Null,
        Val::Bool(false),
        Val::Bool(true),
        Val::Num(Dec::from_i64(s.raw(1 << 40) as i64 - (1 << 39))),
        Val::Str("s".repeat(s.size(300))),
        Val::Arr(vec![Val::Bool(true), Val::Null, Val::Bool(false)]),
        Val::Arr(vec![]),
        Val::Obj(vec![("b".into(), Val::Bool(false)), ("a".into(), Val::Obj(vec![])), ("long".into(), Val::Str("x".into()))]),
        doc_with(s, &tiny),
        doc_with(s, &tiny),
    ];
    for i in (1..vs.len()).rev() {
        let j = s.below(i + 1);
        vs.swap(i, j);
    }
    s.count((pre as u64) << 8);
    s.label_if(pre > 65_536, "vector of more than 65536 bytes");
    s.label_if(pre > 1 << 20, "vector of more than 1 MB");
    let mut at = pre;
    for v in &vs {
        let p = plan(s, v);
        let by_text = s.chance(1, 3);
        let st = yvbase::json::gen_style(s);
        let t = if by_text { yvbase::json::spell_text(s, &st, v) } else { String::new() };
        let by_text = by_text && yvbase::json::parse(&t).is_some_and(|p| !p.marker);
        let want = if by_text { YasonBuf::parse(&t) } else { owned(&p) }.map_err(|e| format!("building alone fails: {}", e))?;
        let got = if by_text { Yason::parse_to(&mut buf, &t) } else { into_vec(&p, &mut buf) }
            .map_err(|e| format!("building behind {} bytes fails: {}", at, e))?;
        same(want.as_bytes(), got.as_bytes(), &format!("a document behind {} bytes and the same by itself", at))?;
        check_doc(got, v, &LIGHT).map_err(|e| format!("behind {} bytes: {}", at, e))?;
        let n = got.as_bytes().len();
        if buf.len() != at + n {
            return Err(format!("behind {} bytes: {} bytes were appended for a document of {}", at, buf.len().wrapping_sub(at), n));
        }
        same(want.as_bytes(), &buf[at..], "the appended bytes")?;
        at += n;
    }
    // the first disturbed byte, 4096 at a time
    if buf[..pre].chunks(4096).any(|c| c != &[0x5Au8; 4096][..c.len()]) {
        return Err("what the vector held was changed".into());
    }
    Ok(())
}

// ---- C02 ----------------------------------------------------------------------------------------

fn conforms(y: &Yason, v: &Val) -> R {
    let (got, _) = bnf::decode(y.as_bytes(), &num_bytes)?;
    if got != v.canon() {
        return Err(format!("by the grammar the bytes denote {} but {} was stored", brief(&got), brief(&v.canon())));
    }
    Ok(())
}

fn built_bytes(s: &mut Src) -> R {
    let v = any_doc(s);
    let d = build(s, &v)?;
    conforms(d.yason(), &v)
}

/// the same with large documents
fn built_bytes_bulk(s: &mut Src) -> R {
    s.bulk = true;
    built_bytes(s)
}

fn parsed_bytes(s: &mut Src) -> R {
    let v = any_doc(s);
    let st = yvbase::json::gen_style(s);
    let t = yvbase::json::spell_text(s, &st, &v);
    if yvbase::json::parse(&t).map_or(true, |p| p.marker) {
        return Ok(());
    }
    let y = YasonBuf::parse(&t).map_err(|e| format!("parsing {}: {}", yvbase::engine::clip(&t, 300), e))?;
    conforms(&y, &v)
}

/// documents produced by the other producers: query results and converted values
fn derived_bytes(s: &mut Src) -> R {
    let c = gen::Cfg { nodes: 40, max_count: 40, ..gen::Cfg::normal() };
    let v = doc_with(s, &c);
    let d = build(s, &v)?;
    let mut buf = vec![7u8; s.held()];
    let path: PathExpression = s.pick(&["$", "$.*", "$[*]", "$[last to 0]", "$.*[0]"]).parse().map_err(|e| format!("{}", e))?;
    let mut vals = Vec::new();
    match path.query(d.yason(), true, Some(&mut vals), Some(&mut buf)).map_err(|e| e.to_string())? {
        QueriedValue::Yason(y) => {
            let (got, _) = bnf::decode(y.as_bytes(), &num_bytes).map_err(|e| format!("query result: {}", e))?;
            let Val::Arr(items) = got else { return Err("a wrapped query result is not an array".into()) };
            s.label("query result document");
            for (i, x) in vals.iter().enumerate() {
                let mut b = vec![1u8, 2, 3];
                let one = x.try_to_yason(&mut b).map_err(|e| e.to_string())?;
                conforms(one, items.get(i).ok_or("the result document has fewer elements than the query buffer")?)?;
            }
        }
        QueriedValue::None => {}
        _ => return Err("a wrapped query with a result buffer gives no document".into()),
    }
    Ok(())
}

pub static C02: Prop = Prop {
    id: "C02",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "built", f: built_bytes, mode: Mode::Random, quick: 120_000, thorough: 4_000_000, profiles: BOTH },
        Sub { name: "built-bulk", f: built_bytes_bulk, mode: Mode::Random, quick: 600, thorough: 20000, profiles: BOTH },
        Sub { name: "parsed", f: parsed_bytes, mode: Mode::Random, quick: 50_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "derived", f: derived_bytes, mode: Mode::Random, quick: 50_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "lengths", f: lengths, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: REL },
    ],
    assumptions: &[
        "the independent decoder (yvbase::bnf) implements the grammar in the crate documentation",
        "the bytes of a number are decoded with the decimal library and compared by value",
    ],
    known: no_known,
};

// ---- C03 ----------------------------------------------------------------------------------------

fn resort(p: &Plan, flags: u64, k: &mut u64, sortable: &mut bool) -> Plan {
    match p {
        Plan::Arr(a) => Plan::Arr(a.iter().map(|x| resort(x, flags, k, sortable)).collect()),
        Plan::Obj(_, m) => {
            *k += 1;
            let f = (flags >> (*k % 60)) & 1 == 1;
            let mut q: Vec<(String, Plan)> = m.iter().map(|(n, x)| (n.clone(), resort(x, flags, k, sortable))).collect();
            q.sort_by(|a, b| key_cmp(&a.0, &b.0));
            *sortable |= q.len() > 1;
            Plan::Obj(f, q)
        }
        p => p.clone(),
    }
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("lengths {} and {}, first difference at byte {}: {:?} and {:?}", a.len(), b.len(), i, &a[i..a.len().min(i + 12)], &b[i..b.len().min(i + 12)])
}

fn same(a: &[u8], b: &[u8], what: &str) -> R {
    if a == b {
        Ok(())
    } else {
        Err(format!("{}: {}", what, first_diff(a, b)))
    }
}

fn deterministic(s: &mut Src) -> R {
    let v = any_doc(s);
    let p = plan(s, &v);
    let e = |e: BuildError| e.to_string();
    let base = dirty::with(0x00, || owned(&p)).map_err(e)?;
    let base = base.as_bytes();
    let b = dirty::with(0xA5, || owned(&p)).map_err(e)?;
    same(base, b.as_bytes(), "two runs of the owned builder")?;
    // into a vector with content, spare capacity, and old bytes in the spare capacity
    let pre = s.held();
    let spare = s.size(600);
    let fill = s.raw(255) as u8;
    let mut vec: Vec<u8> = Vec::with_capacity(pre + spare);
    vec.resize(pre + spare, fill ^ 0xff);
    for (i, b) in vec.iter_mut().enumerate().take(pre) {
        *b = (i as u8).wrapping_mul(31) ^ fill;
    }
    vec.truncate(pre);
    let before = vec.clone();
    s.label_if(pre > 0, "vector with content");
    s.label_if(spare > base.len(), "enough spare capacity");
    let got = dirty::with(fill, || into_vec(&p, &mut vec).map(|y| y.as_bytes().to_vec())).map_err(e)?;
    same(base, &got, "owned builder and builder into a vector")?;
    if vec.len() < pre || vec[..pre] != before[..] {
        return Err("building into a vector changed what it held".into());
    }
    same(&vec[pre..], &got, "appended bytes and returned document")?;
    // a second document behind the first
    let mid = vec.clone();
    let got = into_vec(&p, &mut vec).map(|y| y.as_bytes().to_vec()).map_err(e)?;
    same(base, &got, "second document in one vector")?;
    if vec[..mid.len()] != mid[..] || vec[mid.len()..] != got[..] {
        return Err("a second document in one vector disturbs the first".into());
    }
    Ok(())
}

/// the same with large documents
fn deterministic_bulk(s: &mut Src) -> R {
    s.bulk = true;
    deterministic(s)
}

fn sorted_modes(s: &mut Src) -> R {
    let v = any_doc(s);
    let p = plan(s, &v);
    let mut sortable = false;
    let base = owned(&resort(&p, 0, &mut 0, &mut sortable)).map_err(|e| e.to_string())?;
    s.label_if(sortable, "object with two members or more");
    for flags in [u64::MAX, s.raw(u64::MAX)] {
        let q = resort(&p, flags, &mut 0, &mut sortable);
        let y = owned(&q).map_err(|e| e.to_string())?;
        same(base.as_bytes(), y.as_bytes(), "sorted and unsorted mode")?;
        let mut vec = vec![9u8; 3];
        let y = into_vec(&q, &mut vec).map_err(|e| e.to_string())?;
        same(base.as_bytes(), y.as_bytes(), "sorted and unsorted mode into a vector")?;
    }
    Ok(())
}

/// documents from JSON text, from converted values and from query results, on differently filled memory
fn derived_deterministic(s: &mut Src) -> R {
    let c = gen::Cfg::normal();
    let v = doc_with(s, &c);
    let st = yvbase::json::gen_style(s);
    let t = yvbase::json::spell_text(s, &st, &v);
    s.count(hash_bytes(t.as_bytes()));
    let e = |e: BuildError| e.to_string();
    let a = dirty::with(0, || YasonBuf::parse(&t)).map_err(e)?;
    let b = dirty::with(0xC3, || YasonBuf::parse(&t)).map_err(e)?;
    same(a.as_bytes(), b.as_bytes(), "two parses of one text")?;
    let mut vec = Vec::with_capacity(s.size(500));
    vec.extend_from_slice(b"held");
    let got = dirty::with(0x11, || Yason::parse_to(&mut vec, &t).map(|y| y.as_bytes().to_vec())).map_err(e)?;
    same(a.as_bytes(), &got, "parse and parse_to")?;
    if &vec[..4] != b"held" || vec[4..] != got[..] {
        return Err("parse_to does not append".into());
    }
    let path: PathExpression = s.pick(&["$", "$.*", "$[*]", "$..a"]).parse().map_err(|e| format!("{}", e))?;
    let q = |fill: u8, buf: &mut Vec<u8>| -> Result<Option<Vec<u8>>, String> {
        dirty::with(fill, || match path.query(&a, true, None, Some(buf)).map_err(|e| e.to_string())? {
            QueriedValue::Yason(y) => Ok(Some(y.as_bytes().to_vec())),
            _ => Ok(None),
        })
    };
    let mut b1 = Vec::new();
    let mut b2 = vec![0xEEu8; s.size(300)];
    let r1 = q(0, &mut b1)?;
    let r2 = q(0x77, &mut b2)?;
    if let (Some(x), Some(y)) = (&r1, &r2) {
        same(x, y, "one query into two buffers")?;
        s.label("query result document");
    } else if r1.is_some() != r2.is_some() {
        return Err("one query gives a result with one buffer and none with another".into());
    }
    Ok(())
}

pub static C03: Prop = Prop {
    id: "C03",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "deterministic", f: deterministic, mode: Mode::Random, quick: 40_000, thorough: 3_000_000, profiles: BOTH },
        Sub { name: "deterministic-bulk", f: deterministic_bulk, mode: Mode::Random, quick: 300, thorough: 10000, profiles: BOTH },
        Sub { name: "long-vectors", f: long_vectors, mode: Mode::Random, quick: 300, thorough: 10000, profiles: BOTH },
        Sub { name: "sorted-modes", f: sorted_modes, mode: Mode::Random, quick: 25_000, thorough: 2_000_000, profiles: BOTH },
        Sub { name: "derived", f: derived_deterministic, mode: Mode::Random, quick: 40_000, thorough: 1_000_000, profiles: BOTH },
    ],
    assumptions: &["memory the builders allocate is filled by the harness's allocator with a pattern that differs between the compared runs"],
    known: no_known,
};
