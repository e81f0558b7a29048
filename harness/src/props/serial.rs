//! C17: the serde implementation.
use super::carrier::*;
use super::text::text;
use super::*;
use crate::drive::*;
use crate::read::content_of;
use std::collections::BTreeMap;
use yason::*;
use yvbase::engine::{clip, hash_bytes};
use yvbase::json;
use yvbase::run::*;

fn equal(got: &Yason, y: &Yason, v: &Val, what: &str) -> R {
    if content_of(got).map_err(|e| format!("{}: {}", what, e))? != v.canon() {
        return Err(format!("{}: another document comes back: {}", what, clip(&text(got, false).unwrap_or_default(), 300)));
    }
    if !got.equals(y).map_err(|e| format!("{}: equals: {}", what, e))? {
        return Err(format!("{}: an unequal document comes back", what));
    }
    Ok(())
}

/// the outer text is exactly one JSON string; its content
fn string_of_json(t: &str, what: &str) -> Result<String, String> {
    match json::parse(t).map(|p| p.val) {
        Some(Val::Str(t)) => Ok(t),
        _ => Err(format!("{}: not carried as a JSON string: {}", what, clip(t, 300))),
    }
}

fn own(s: &mut Src, v: &Val) -> Result<YasonBuf, String> {
    let d = build(s, v)?;
    if s.chance(1, 2) {
        return d.yason().to_yason_buf().map_err(|e| e.to_string());
    }
    let p = plan(s, v);
    owned(&p).map_err(|e| e.to_string())
}

/// mostly of moderate size: each one is carried a dozen times
fn some_doc(s: &mut Src) -> Val {
    let c = match s.weighted(&[50, 48, 2]) {
        0 => gen::Cfg { max_count: 400, ..gen::Cfg::normal() },
        1 => gen::Cfg::small(),
        _ => gen::Cfg::large(),
    };
    doc_with(s, &c)
}

fn readable(s: &mut Src) -> R {
    let v = some_doc(s);
    let y = own(s, &v)?;
    let t = text(&y, false)?;
    let e = |e: serde_json::Error| format!("serde_json: {}", e);
    let j = serde_json::to_string(&y).map_err(e)?;
    if string_of_json(&j, "to_string")? != t {
        return Err(format!("to_string carries other text than the compact form: {}", clip(&j, 300)));
    }
    if string_of_json(&serde_json::to_string_pretty(&y).map_err(e)?, "to_string_pretty")? != t {
        return Err("to_string_pretty carries other text than the compact form".into());
    }
    if serde_json::to_vec(&y).map_err(e)? != j.as_bytes() {
        return Err("to_vec and to_string differ".into());
    }
    let jv = serde_json::to_value(&y).map_err(e)?;
    if jv.as_str() != Some(&t) {
        return Err("to_value is not the compact text".into());
    }
    if json::parse(&t).map_or(true, |p| p.marker) {
        return Ok(());
    }
    let back = |r: Result<YasonBuf, serde_json::Error>, what: &str| match r {
        Ok(b) => equal(&b, &y, &v, what),
        Err(e) => Err(format!("{}: what was serialized is refused: {}", what, e)),
    };
    back(serde_json::from_str(&j), "from_str")?;
    back(serde_json::from_slice(j.as_bytes()), "from_slice")?;
    back(serde_json::from_reader(j.as_bytes()), "from_reader")?;
    back(serde_json::from_value(jv), "from_value")?;
    // as a part of something else
    match s.raw(2) {
        0 => {
            let w = vec![y.clone(), y.clone()];
            let j = serde_json::to_string(&w).map_err(e)?;
            let r: Vec<YasonBuf> = serde_json::from_str(&j).map_err(e)?;
            if r.len() != 2 {
                return Err("a list of two documents comes back with another length".into());
            }
            equal(&r[0], &y, &v, "first of a list")?;
            equal(&r[1], &y, &v, "second of a list")
        }
        1 => {
            let w = (7u32, Some(y.clone()), None::<YasonBuf>, "after".to_string());
            let j = serde_json::to_string(&w).map_err(e)?;
            let r: (u32, Option<YasonBuf>, Option<YasonBuf>, String) = serde_json::from_str(&j).map_err(e)?;
            if r.0 != 7 || r.2.is_some() || r.3 != "after" {
                return Err("neighbours of a document are changed".into());
            }
            equal(&r.1.ok_or("a document in an option is lost")?, &y, &v, "in an option")
        }
        _ => {
            let mut w = BTreeMap::new();
            w.insert("a".to_string(), y.clone());
            w.insert("b".to_string(), Scalar::null().map_err(|e| e.to_string())?);
            let j = serde_json::to_string(&w).map_err(e)?;
            let r: BTreeMap<String, YasonBuf> = serde_json::from_str(&j).map_err(e)?;
            equal(r.get("a").ok_or("a document in a map is lost")?, &y, &v, "in a map")
        }
    }
}

/// the same with large documents
fn readable_bulk(s: &mut Src) -> R {
    s.bulk = true;
    readable(s)
}

fn binary(s: &mut Src) -> R {
    let v = some_doc(s);
    let y = own(s, &v)?;
    let b = y.as_bytes();
    let e = |e: bincode::Error| format!("bincode: {}", e);
    let bin = bincode::serialize(&y).map_err(e)?;
    if bin.len() != 8 + b.len() || bin[..8] != (b.len() as u64).to_le_bytes() || bin[8..] != *b {
        return Err(format!("the binary form of {} bytes is not the length and the exact {} bytes of the document", bin.len(), b.len()));
    }
    let back = |r: Result<YasonBuf, bincode::Error>, what: &str| match r {
        Ok(g) if g.as_bytes() == b => equal(&g, &y, &v, what),
        Ok(g) => Err(format!("{}: {} other bytes come back", what, g.as_bytes().len())),
        Err(e) => Err(format!("{}: refused: {}", what, e)),
    };
    back(bincode::deserialize(&bin), "deserialize")?;
    back(bincode::deserialize_from(&bin[..]), "deserialize_from")?;
    use bincode::Options;
    let o = bincode::DefaultOptions::new();
    let bin = o.serialize(&y).map_err(e)?;
    if !bin.ends_with(b) {
        return Err("the binary form with other options does not end in the bytes of the document".into());
    }
    back(o.deserialize(&bin), "deserialize with other options")?;
    let mut big = Vec::new();
    o.with_big_endian().serialize_into(&mut big, &y).map_err(e)?;
    back(o.with_big_endian().deserialize_from(&big[..]), "big-endian, through a stream")?;
    // as a part of something else
    let w = (s.raw(255) as u8, vec![y.clone(), y.clone()], Some(y.clone()), "after".to_string());
    let bin = bincode::serialize(&w).map_err(e)?;
    let r: (u8, Vec<YasonBuf>, Option<YasonBuf>, String) = bincode::deserialize(&bin).map_err(e)?;
    if r.0 != w.0 || r.1.len() != 2 || r.3 != "after" {
        return Err("neighbours of a document are changed".into());
    }
    for g in r.1.into_iter().chain(r.2) {
        back(Ok(g), "in a larger structure")?;
    }
    Ok(())
}

/// the same with large documents
fn binary_bulk(s: &mut Src) -> R {
    s.bulk = true;
    binary(s)
}

/// any text as human-readable input: taken exactly when the parser takes it
fn inputs(s: &mut Src) -> R {
    let t = super::accept::any_text(s);
    s.note(|| format!("text: {}", clip(&t, 800)));
    s.count(hash_bytes(t.as_bytes()));
    if super::accept::outside_domain(&t) || t.contains("$serde_json") || t.contains("\\u0024") {
        return Ok(());
    }
    let want = YasonBuf::parse(&t);
    s.label(if want.is_ok() { "valid" } else { "invalid" });
    let mut lit = String::new();
    json::quote(&t, &mut lit);
    let check = |r: Result<YasonBuf, serde_json::Error>, what: &str| match (r, &want) {
        (Ok(a), Ok(b)) if a.as_bytes() == b.as_bytes() => Ok(()),
        (Ok(_), Ok(_)) => Err(format!("{}: another document than parsing gives", what)),
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("{}: accepted, parsing refuses it ({})", what, e)),
        (Err(e), Ok(_)) => Err(format!("{}: refused ({}), parsing accepts it", what, e)),
    };
    check(serde_json::from_str(&lit), "from_str")?;
    check(serde_json::from_slice(lit.as_bytes()), "from_slice")?;
    check(serde_json::from_reader(lit.as_bytes()), "from_reader")?;
    check(serde_json::from_value(serde_json::Value::String(t.clone())), "from_value")?;
    // the same text not as a string: a document is only ever carried as one
    if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
        if !v.is_string() {
            s.label("valid JSON that is not a string");
            if serde_json::from_str::<YasonBuf>(&t).is_ok() || serde_json::from_value::<YasonBuf>(v).is_ok() {
                return Err("JSON that is not a string is accepted as a document".into());
            }
        }
    }
    Ok(())
}

/// formats of our own, which hold strings and bytes in every way serde knows, and fail
fn carriers(s: &mut Src) -> R {
    let v = some_doc(s);
    let y = own(s, &v)?;
    let t = text(&y, false)?;
    let b = y.as_bytes().to_vec();
    use serde::{Deserialize, Serialize};
    let held = |h: bool| y.serialize(Rec { human: h, fail: false }).map_err(|e| format!("serialize (human-readable: {}): {}", h, e));
    let (ht, hb) = (held(true)?, held(false)?);
    if ht != Held::Str(t) {
        return Err("a human-readable format is not given the compact text as a string".into());
    }
    if hb != Held::Bytes(b.clone()) {
        return Err("a binary format is not given the exact bytes of the document".into());
    }
    for h in [true, false] {
        if y.serialize(Rec { human: h, fail: true }).is_ok() {
            return Err("the failure of the format is lost when serializing".into());
        }
    }
    for way in WAYS {
        let g = YasonBuf::deserialize(Give { held: &hb, way, human: false }).map_err(|e| format!("bytes, {:?}: refused: {}", way, e))?;
        if g.as_bytes() != &b[..] {
            return Err(format!("bytes, {:?}: other bytes come back", way));
        }
        equal(&g, &y, &v, "bytes")?;
        if let Held::Str(t) = &ht {
            if json::parse(t).map_or(true, |p| p.marker) {
                continue;
            }
            let g = YasonBuf::deserialize(Give { held: &ht, way, human: true }).map_err(|e| format!("string, {:?}: refused: {}", way, e))?;
            equal(&g, &y, &v, "string")?;
        }
    }
    // a stream that ends early or takes no more: an error, never part of a document
    let j = serde_json::to_vec(&y).map_err(|e| e.to_string())?;
    let bin = bincode::serialize(&y).map_err(|e| e.to_string())?;
    for k in 0..4 {
        let (i, l) = match k {
            0 => (j.len() - 1, bin.len() - 1),
            1 => (0, 0),
            _ => (s.below(j.len()), s.below(bin.len())),
        };
        if serde_json::to_writer(Brittle { left: i }, &y).is_ok() {
            return Err(format!("writing {} bytes of JSON text into room for {} succeeds", j.len(), i));
        }
        if bincode::serialize_into(Brittle { left: l }, &y).is_ok() {
            return Err(format!("writing {} bytes into room for {} succeeds", bin.len(), l));
        }
        if serde_json::from_slice::<YasonBuf>(&j[..i]).is_ok() || serde_json::from_reader::<_, YasonBuf>(&j[..i]).is_ok() {
            return Err(format!("the first {} of {} bytes of JSON text are taken", i, j.len()));
        }
        if bincode::deserialize::<YasonBuf>(&bin[..l]).is_ok() || bincode::deserialize_from::<_, YasonBuf>(&bin[..l]).is_ok() {
            return Err(format!("the first {} of {} bytes are taken", l, bin.len()));
        }
    }
    serde_json::to_writer(Brittle { left: j.len() }, &y).map_err(|e| format!("to_writer: {}", e))?;
    bincode::serialize_into(Brittle { left: bin.len() }, &y).map_err(|e| format!("serialize_into: {}", e))?;
    Ok(())
}

pub static C17: Prop = Prop {
    id: "C17",
    rule: "a case counts when its document holds at least two values or a non-empty string or a non-zero number, or when it is an input text; distinct by content",
    subs: &[
        Sub { name: "readable", f: readable, mode: Mode::Random, quick: 14_000, thorough: 600_000, profiles: BOTH },
        Sub { name: "readable-bulk", f: readable_bulk, mode: Mode::Random, quick: 200, thorough: 6000, profiles: BOTH },
        Sub { name: "binary", f: binary, mode: Mode::Random, quick: 14_000, thorough: 600_000, profiles: BOTH },
        Sub { name: "binary-bulk", f: binary_bulk, mode: Mode::Random, quick: 200, thorough: 6000, profiles: BOTH },
        Sub { name: "carriers", f: carriers, mode: Mode::Random, quick: 14_000, thorough: 600_000, profiles: BOTH },
        Sub { name: "inputs", f: inputs, mode: Mode::Random, quick: 100_000, thorough: 5_000_000, profiles: BOTH },
    ],
    assumptions: &[
        "serde_json stands for human-readable formats and bincode for binary ones",
        "bytes given to the binary route are the caller's responsibility (they are taken as they are)",
        "texts whose strings contain the number marker of the JSON library are left out",
    ],
    known: no_known,
};
