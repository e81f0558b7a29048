//! C18: extracted values as documents of their own, and copies of documents.
use super::path::{parse_path, path_doc, reference};
use super::text::text;
use super::*;
use crate::drive::*;
use crate::read::*;
use yason::*;
use yvbase::bnf;
use yvbase::json;
use yvbase::model::Ty;
use yvbase::path::{gen_steps, render};
use yvbase::run::*;

fn e<E: std::fmt::Display>(what: &'static str) -> impl Fn(E) -> String {
    move |x| format!("{}: {}", what, x)
}

/// one extracted value, as a document of its own
fn check_one(s: &mut Src, x: &Value, v: &Val, what: &str) -> R {
    agrees(x, v, &|| what.to_string())?;
    let held: Vec<u8> = (0..s.below(9)).map(|i| 0xB0 | i as u8).collect();
    let mut buf = held.clone();
    let bytes = {
        let y = x.try_to_yason(&mut buf).map_err(|e| format!("{}: try_to_yason: {}", what, e))?;
        y.as_bytes().to_vec()
    };
    if buf.len() < held.len() || buf[..held.len()] != held[..] {
        return Err(format!("{}: try_to_yason changes what the buffer held", what));
    }
    let direct = match x {
        Value::Object(o) => Some(o.yason().as_bytes()),
        Value::Array(a) => Some(a.yason().as_bytes()),
        _ => None,
    };
    if let Some(d) = direct {
        if d != &bytes[..] {
            return Err(format!("{}: yason() and try_to_yason give different bytes", what));
        }
    }
    let (got, _) = bnf::decode(&bytes, &num_bytes).map_err(|e| format!("{}: its bytes are not a complete document: {}", what, e))?;
    if got.canon() != v.canon() {
        return Err(format!("{}: its bytes decode to {} but it holds {}", what, brief(&got), brief(v)));
    }
    // somewhere else, between other bytes
    let at = s.below(9);
    let junk = *s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]);
    let mut room = vec![junk; at];
    room.extend_from_slice(&bytes);
    room.extend_from_slice(&[junk; 9]);
    let y = unsafe { Yason::new_unchecked(&room[at..at + bytes.len()]) };
    if content_of(y).map_err(|e| format!("{}, copied elsewhere: {}", what, e))? != v.canon() {
        return Err(format!("{}, copied elsewhere, reads as other content", what));
    }
    if text(y, false)? != json::compact(v, &num_text) {
        return Err(format!("{}, copied elsewhere, formats as {}", what, text(y, false)?));
    }
    let fresh = owned(&straight(v)).map_err(e("building"))?;
    for (a, b, d) in [(y, &*fresh, "copy and fresh build"), (&*fresh, y, "fresh build and copy")] {
        if !a.equals(b).map_err(|e| format!("{}: equals: {}", what, e))? {
            return Err(format!("{}: {} are unequal", what, d));
        }
    }
    match x {
        Value::Object(o) => {
            if !o.yason().equals(y).map_err(e("equals"))? || !y.equals(o.yason()).map_err(e("equals"))? {
                return Err(format!("{}: not equal to its copy", what));
            }
        }
        Value::Array(a) => {
            if !a.yason().equals(y).map_err(e("equals"))? || !y.equals(a.yason()).map_err(e("equals"))? {
                return Err(format!("{}: not equal to its copy", what));
            }
        }
        _ => {}
    }
    copies(s, y, v, what)
}

/// the ways of copying a document
fn copies(s: &mut Src, y: &Yason, v: &Val, what: &str) -> R {
    let bytes = y.as_bytes();
    let a = y.to_yason_buf().map_err(e("to_yason_buf"))?;
    let b = y.to_owned();
    let c = a.clone();
    let mut d = owned(&straight(&[Val::Null, Val::Str("x".repeat(s.size(300))), Val::Arr(vec![Val::Bool(true); s.below(20)])][s.below(3)])).map_err(e("building"))?;
    d.clone_from_yason(y);
    let mut f = a.clone();
    f.clone_from(&b);
    let mut g = b.clone();
    // overwritten by itself, through a copy
    g.clone_from_yason(&c);
    let r: &Yason = std::borrow::Borrow::borrow(&b);
    let as_ref: &Yason = b.as_ref();
    for (x, how) in [(&*a, "to_yason_buf"), (&*b, "to_owned"), (&*c, "clone"), (&*d, "clone_from_yason"), (&*f, "clone_from"), (&*g, "clone_from_yason over itself"), (r, "borrow"), (as_ref, "as_ref")] {
        if x.as_bytes() != bytes {
            return Err(format!("{}: {} gives other bytes", what, how));
        }
    }
    if content_of(&d).map_err(|e| format!("{}: clone_from_yason: {}", what, e))? != v.canon() {
        return Err(format!("{}: clone_from_yason gives other content", what));
    }
    if a != b || !(c == d) {
        return Err(format!("{}: copies are not ==", what));
    }
    Ok(())
}

/// one step down, through an accessor chosen at random
fn child<'a>(s: &mut Src, x: &Value<'a>, v: &Val) -> Result<Option<(Value<'a>, Val, String)>, String> {
    match (x, v) {
        (Value::Object(o), Val::Obj(m)) if !m.is_empty() => {
            let w = members(m);
            // containers more often than not
            let nested: Vec<usize> = (0..w.len()).filter(|i| matches!(w[*i].1, Val::Obj(_) | Val::Arr(_))).collect();
            let i = if !nested.is_empty() && s.chance(3, 4) { *s.pick(&nested) } else { s.below(w.len()) };
            let (k, c) = w[i];
            let lost = || format!("member {:?} is not found", k);
            let how = s.raw(4);
            let got = match how {
                0 => o.get(k).map_err(e("get"))?.ok_or_else(lost)?,
                1 => o.iter().map_err(e("iter"))?.nth(i).ok_or_else(lost)?.map_err(e("iter"))?.1,
                2 => o.value_iter().map_err(e("value_iter"))?.nth(i).ok_or_else(lost)?.map_err(e("value_iter"))?,
                3 => match c.ty() {
                    Ty::Object => Value::Object(o.object(k).map_err(e("object"))?.ok_or_else(lost)?),
                    Ty::Array => Value::Array(o.array(k).map_err(e("array"))?.ok_or_else(lost)?),
                    Ty::String => Value::String(o.string(k).map_err(e("string"))?.ok_or_else(lost)?),
                    Ty::Number => Value::Number(o.number(k).map_err(e("number"))?.ok_or_else(lost)?),
                    Ty::Bool => Value::Bool(o.bool(k).map_err(e("bool"))?.ok_or_else(lost)?),
                    Ty::Null => o.get(k).map_err(e("get"))?.ok_or_else(lost)?,
                },
                _ => o.get(k.to_string()).map_err(e("get"))?.ok_or_else(lost)?.clone(),
            };
            Ok(Some((got, c.clone(), ["get", "iter", "value_iter", "typed getter", "get"][how as usize].to_string())))
        }
        (Value::Array(a), Val::Arr(w)) if !w.is_empty() => {
            let nested: Vec<usize> = (0..w.len()).filter(|i| matches!(w[*i], Val::Obj(_) | Val::Arr(_))).collect();
            let i = if !nested.is_empty() && s.chance(3, 4) { *s.pick(&nested) } else { s.below(w.len()) };
            let c = &w[i];
            let lost = || format!("element {} is not found", i);
            let how = s.raw(3);
            let got = match how {
                0 => a.get(i).map_err(e("get"))?,
                1 => a.iter().map_err(e("iter"))?.nth(i).ok_or_else(lost)?.map_err(e("iter"))?,
                2 => match c.ty() {
                    Ty::Object => Value::Object(a.object(i).map_err(e("object"))?),
                    Ty::Array => Value::Array(a.array(i).map_err(e("array"))?),
                    Ty::String => Value::String(a.string(i).map_err(e("string"))?),
                    Ty::Number => Value::Number(a.number(i).map_err(e("number"))?),
                    Ty::Bool => Value::Bool(a.bool(i).map_err(e("bool"))?),
                    Ty::Null => a.get(i).map_err(e("get"))?,
                },
                _ => unsafe { a.get_unchecked(i) }.map_err(e("get_unchecked"))?,
            };
            Ok(Some((got, c.clone(), ["get", "iter", "typed getter", "get_unchecked"][how as usize].to_string())))
        }
        _ => Ok(None),
    }
}

fn some_doc(s: &mut Src) -> Val {
    let c = match s.weighted(&[60, 38, 2]) {
        0 => gen::Cfg { max_count: 300, ..gen::Cfg::normal() },
        1 => gen::Cfg::small(),
        _ => gen::Cfg::large(),
    };
    doc_with(s, &c)
}

/// walks down by random accessors, checking every value on the way
fn walks(s: &mut Src) -> R {
    let v = some_doc(s);
    let d = build(s, &v)?;
    let root = Value::try_from(d.yason()).map_err(e("Value::try_from"))?;
    check_one(s, &root, &v, "the document")?;
    let mut deepest = 0;
    for _ in 0..3 {
        let mut x = root.clone();
        let mut w = v.clone();
        let mut path = String::from("$");
        let mut depth = 0;
        while let Some((nx, nv, how)) = child(s, &x, &w)? {
            depth += 1;
            path = format!("{} > {}", path, how);
            // on the way down only now and then, at the end always
            let last = !matches!(nv, Val::Obj(_) | Val::Arr(_)) || nv.nodes() == 1;
            if last || depth < 4 || s.chance(1, 8) {
                check_one(s, &nx, &nv, &yvbase::engine::clip(&path, 300))?;
            }
            x = nx;
            w = nv;
        }
        deepest = deepest.max(depth);
    }
    s.label_if(deepest >= 2, "extracted from two or more levels down");
    s.label_if(deepest >= 20, "extracted from 20 or more levels down");
    Ok(())
}

/// the same with large documents
fn walks_bulk(s: &mut Src) -> R {
    s.bulk = true;
    walks(s)
}

/// values that queries give
fn queried(s: &mut Src) -> R {
    let v = path_doc(s);
    classify(s, &v);
    let d = build(s, &v)?;
    let steps = gen_steps(s, &v, true);
    let t = render(s, &steps, false);
    s.note(|| format!("path: {}", t));
    let Some(want) = reference(&v, &steps) else {
        return Ok(());
    };
    let p = parse_path(&t)?;
    let q = p.query(d.yason(), true, None, None).map_err(e("query"))?;
    let vals: &[Value] = match &q {
        QueriedValue::Values(v) => v,
        QueriedValue::None => &[],
        _ => return Err("a wrapped query without buffers gives another form".into()),
    };
    if vals.len() != want.len() {
        return Err(format!("{} selects {} values, due {}", t, vals.len(), want.len()));
    }
    s.label_if(!want.is_empty(), "selects something");
    for i in picks(vals.len(), 12) {
        check_one(s, &vals[i], &want[i], &format!("value {} of {}", i, t))?;
    }
    if want.len() == 1 && !yvbase::path::has_func(&steps) {
        if let QueriedValue::Value(x) = p.query(d.yason(), false, None, None).map_err(e("query"))? {
            check_one(s, &x, &want[0], &format!("the single value of {}", t))?;
        }
    }
    // out of the result document
    if !want.is_empty() && want.len() < 2000 {
        let mut buf = vec![9u8; s.held()];
        if let QueriedValue::Yason(y) = p.query(d.yason(), true, None, Some(&mut buf)).map_err(e("query"))? {
            let a = y.array().map_err(e("array"))?;
            for i in picks(want.len(), 12) {
                check_one(s, &a.get(i).map_err(e("get"))?, &want[i], &format!("element {} of the result document of {}", i, t))?;
            }
            s.label("out of a result document");
        }
    }
    Ok(())
}

/// the same with large documents
fn queried_bulk(s: &mut Src) -> R {
    s.bulk = true;
    queried(s)
}

/// the same nested value inside different parents
fn surroundings(s: &mut Src) -> R {
    let v = doc_with(s, &gen::Cfg::small());
    let mut first: Option<Vec<u8>> = None;
    let plan_of = plan(s, &v);
    for _ in 0..3 {
        let mut d = 0;
        let mut w = plan_of.clone();
        let mut route = Vec::new();
        let up = 1 + s.below(3);
        while d < up && v.depth() + d < 100 {
            d += 1;
            let before = s.below(3);
            let after = s.below(3);
            let pad = |s: &mut Src| Plan::Str("p".repeat(s.size(300)));
            if s.chance(1, 2) {
                let mut a: Vec<Plan> = (0..before).map(|_| pad(s)).collect();
                a.push(w);
                a.extend((0..after).map(|_| pad(s)));
                w = Plan::Arr(a);
                route.push(None);
            } else {
                let k = gen::gen_key(s, 300);
                let mut m: Vec<(String, Plan)> = (0..before).map(|i| (format!("{}<{}", k, i), pad(s))).collect();
                m.push((k.clone(), w));
                m.extend((0..after).map(|i| (format!("{}>{}", k, i), pad(s))));
                w = Plan::Obj(false, m);
                route.push(Some(k));
            }
            route.last_mut().unwrap();
            let n = before;
            if let Some(None) = route.last() {
                *route.last_mut().unwrap() = Some(format!("#{}", n));
            } else if let Some(Some(k)) = route.last_mut() {
                k.insert(0, '.');
            }
        }
        let doc = build_plan(s, &w)?;
        let mut x = Value::try_from(doc.yason()).map_err(e("Value::try_from"))?;
        for r in route.iter().rev() {
            let r = r.as_ref().unwrap();
            x = match x {
                Value::Object(o) => o.get(&r[1..]).map_err(e("get"))?.ok_or("member lost")?,
                Value::Array(a) => a.get(r[1..].parse().unwrap()).map_err(e("get"))?,
                _ => return Err("a container is read as a scalar".into()),
            };
        }
        check_one(s, &x, &v, "nested value")?;
        let mut b = Vec::new();
        let bytes = x.try_to_yason(&mut b).map_err(e("try_to_yason"))?.as_bytes().to_vec();
        match &first {
            None => first = Some(bytes),
            Some(f) if *f == bytes => {}
            Some(_) => return Err("the bytes of a nested value depend on its parent".into()),
        }
    }
    Ok(())
}

pub static C18: Prop = Prop {
    id: "C18",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "walks", f: walks, mode: Mode::Random, quick: 30_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "walks-bulk", f: walks_bulk, mode: Mode::Random, quick: 300, thorough: 10000, profiles: BOTH },
        Sub { name: "queried", f: queried, mode: Mode::Random, quick: 24_000, thorough: 1_200_000, profiles: BOTH },
        Sub { name: "queried-bulk", f: queried_bulk, mode: Mode::Random, quick: 300, thorough: 10000, profiles: BOTH },
        Sub { name: "surroundings", f: surroundings, mode: Mode::Random, quick: 40_000, thorough: 2_000_000, profiles: BOTH },
    ],
    assumptions: &["the independent decoder (yvbase::bnf) implements the grammar in the crate documentation"],
    known: no_known,
};
