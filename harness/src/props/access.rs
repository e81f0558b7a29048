//! C08 equality, C09 lookup and order, C10 typed access.
use super::*;
use crate::drive::*;
use crate::read::*;
use yason::*;
use yvbase::dec::{spell, Dec};
use yvbase::json;
use yvbase::model::{key_lt, Ty, TYPES};
use yvbase::run::*;

fn eq(a: &Yason, b: &Yason) -> Result<bool, String> {
    let r = a.equals(b).map_err(|e| format!("equals fails: {}", e))?;
    if (a == b) != r || (a != b) == r {
        return Err("== and equals disagree".into());
    }
    Ok(r)
}
fn both(a: &Yason, b: &Yason, want: bool, what: &str) -> R {
    for (x, y, d) in [(a, b, "forwards"), (b, a, "backwards")] {
        let r = eq(x, y)?;
        if r != want {
            return Err(format!("{}: {} compared {}", what, if want { "equal content found unequal" } else { "different content found equal" }, d));
        }
    }
    Ok(())
}

fn same_content(s: &mut Src) -> R {
    let v = any_doc(s);
    let a = build(s, &v)?;
    both(a.yason(), a.yason(), true, "a document and itself")?;
    let b = build(s, &v)?;
    both(a.yason(), b.yason(), true, "two builds of one value")?;
    let st = json::gen_style(s);
    let t = json::spell_text(s, &st, &v);
    if json::parse(&t).map_or(true, |p| p.marker) {
        return Ok(());
    }
    let c = YasonBuf::parse(&t).map_err(|e| e.to_string())?;
    both(a.yason(), &c, true, "built and parsed")?;
    both(b.yason(), &c, true, "built and parsed")?;
    if !(c == b.yason().to_owned()) {
        return Err("owned documents of one value are not ==".into());
    }
    // inside a larger document
    let w = Val::Arr(vec![Val::Str("pad".into()), v.clone(), Val::Null]);
    let w2 = Val::Obj(vec![("x".into(), v.clone()), ("longer key".into(), Val::Str("pad".into()))]);
    if w.depth() <= 100 {
        let (w, w2) = (build(s, &w)?, build(s, &w2)?);
        let e = |e: YasonError| e.to_string();
        let (mut b1, mut b2) = (vec![1u8], Vec::new());
        let x = w.yason().array().and_then(|a| a.get(1)).map_err(e)?;
        let x = x.try_to_yason(&mut b1).map_err(e)?;
        let z = w2.yason().object().and_then(|o| o.get("x")).map_err(e)?.ok_or("member lost")?;
        let z = z.try_to_yason(&mut b2).map_err(e)?;
        both(x, a.yason(), true, "extracted from an array and built")?;
        both(x, z, true, "extracted from an array and from an object")?;
    }
    Ok(())
}

/// the same with large documents
fn same_content_bulk(s: &mut Src) -> R {
    s.bulk = true;
    same_content(s)
}

fn one_difference(s: &mut Src) -> R {
    let v = any_doc(s);
    let w = gen::tweak(s, &v);
    if v.canon() == w.canon() || w.depth() > 100 || !w.fits() {
        s.label("no difference made");
        return Ok(());
    }
    s.note(|| format!("other: {}", brief(&w)));
    let a = build(s, &v)?;
    let b = build(s, &w)?;
    both(a.yason(), b.yason(), false, "one difference")?;
    s.label_if(a.yason().as_bytes().len() == b.yason().as_bytes().len(), "same number of bytes");
    Ok(())
}

/// the same with large documents
fn one_difference_bulk(s: &mut Src) -> R {
    s.bulk = true;
    one_difference(s)
}

/// long strings and keys of one length that differ in one character at any place
fn one_character(s: &mut Src) -> R {
    let n = 1 + s.wide(70_000);
    let mut t: Vec<u8> = gen::string_of(s, n).into_bytes();
    let i = gen::spot(s, n);
    // the place must be a character of its own
    let mut from = i;
    while from > 0 && t[from] & 0xC0 == 0x80 {
        from -= 1;
    }
    let mut to = i + 1;
    while to < n && t[to] & 0xC0 == 0x80 {
        to += 1;
    }
    t[from..to].fill(b'p');
    let a = String::from_utf8(t.clone()).map_err(|e| format!("HARNESS: {}", e))?;
    t[i] = *s.pick(&[b'q', b'P', b'o', 0, 0x7f]);
    let b = String::from_utf8(t).map_err(|e| format!("HARNESS: {}", e))?;
    let form = s.raw(4);
    s.note(|| format!("{} bytes that differ at {}, form {}", n, i, form));
    s.count(yvbase::engine::hash_bytes(b.as_bytes()).wrapping_add(form));
    s.label_if(n > 1024, "over 1024 bytes");
    let make = |x: &str| match form {
        0 => Val::Str(x.into()),
        1 => Val::Arr(vec![Val::Null, Val::Str(x.into()), Val::Bool(true)]),
        2 => Val::Obj(vec![("k".into(), Val::Str(x.into())), ("a".into(), Val::Null)]),
        3 if x.len() < 65_536 => Val::Obj(vec![(x.into(), Val::Null)]),
        _ if x.len() < 65_535 => Val::Obj(vec![(String::new(), Val::Null), (x.into(), Val::Bool(true)), (format!("{}z", x), Val::Num(Dec::from_i64(1)))]),
        _ => Val::Str(x.into()),
    };
    let (va, vb) = (make(&a), make(&b));
    let x = owned(&straight(&va)).map_err(|e| e.to_string())?;
    let y = build(s, &vb)?;
    both(&x, y.yason(), false, "one different character")?;
    let y = build(s, &va)?;
    both(&x, y.yason(), true, "the same characters")
}

/// a value from a small pool, so that equal pairs are common
fn pooled(s: &mut Src, depth: usize) -> Val {
    // a mutated choice can be any index
    let kind = s.weighted(&[10, 10, 20, 20, if depth > 0 { 20 } else { 0 }, if depth > 0 { 20 } else { 0 }]);
    match if depth > 0 { kind } else { kind % 4 } {
        0 => Val::Null,
        1 => Val::Bool(s.chance(1, 2)),
        2 => Val::Num(Dec::parse(*s.pick(&["0", "1", "10", "1e1", "100", "-1", "0.1", "1e10", "10000000000", "256", "65536"])).unwrap()),
        3 => Val::Str(s.pick(&["", "a", "b", "ab", "\0", "1", "é"]).to_string()),
        4 => {
            let n = s.below(3);
            Val::Arr((0..n).map(|_| pooled(s, depth - 1)).collect())
        }
        _ => {
            let n = s.below(3);
            let mut m: Vec<(String, Val)> = Vec::new();
            for _ in 0..n {
                let k = s.pick(&["", "a", "b", "ab"]).to_string();
                if !m.iter().any(|x| x.0 == k) {
                    m.push((k, pooled(s, depth - 1)));
                }
            }
            Val::Obj(m)
        }
    }
}

fn pairs(s: &mut Src) -> R {
    let vs: Vec<Val> = (0..3).map(|_| pooled(s, 2)).collect();
    let c: Vec<Val> = vs.iter().map(|v| v.canon()).collect();
    s.note(|| vs.iter().map(brief).collect::<Vec<_>>().join(" | "));
    s.count(Val::Arr(vs.clone()).hash());
    let mut docs = Vec::new();
    for v in &vs {
        docs.push(build(s, v)?);
    }
    for i in 0..3 {
        for j in 0..3 {
            let want = c[i] == c[j];
            s.label_if(want && i != j, "equal pair");
            if eq(docs[i].yason(), docs[j].yason())? != want {
                return Err(format!("{} and {}: equality is {}", brief(&vs[i]), brief(&vs[j]), !want));
            }
        }
    }
    Ok(())
}

/// numbers of equal and of different value in every spelling and place
fn number_pairs(s: &mut Src) -> R {
    let a = yvbase::dec::gen_dec(s);
    let b = match s.raw(3) {
        0 => yvbase::dec::gen_dec(s),
        1 => match gen::tweak(s, &Val::Num(a.clone())) {
            Val::Num(d) => d,
            _ => a.clone(),
        },
        _ => a.clone(),
    };
    let (ta, tb) = (spell(s, &a), spell(s, &b));
    let wrap = |t: &str, k: u64| match k {
        0 => t.to_string(),
        1 => format!("[{}]", t),
        2 => format!("[[1],{},[2]]", t),
        _ => format!("{{\"k\":{},\"l\":0}}", t),
    };
    let k = s.raw(3);
    s.note(|| format!("{} | {}", ta, tb));
    s.count(yvbase::engine::hash_bytes(format!("{} {}", ta, tb).as_bytes()));
    s.label_if(a == b, "equal numbers");
    let x = YasonBuf::parse(wrap(&ta, k)).map_err(|e| e.to_string())?;
    let y = YasonBuf::parse(wrap(&tb, k)).map_err(|e| e.to_string())?;
    s.label_if(a == b && x.as_bytes().len() != y.as_bytes().len(), "equal numbers in encodings of different length");
    both(&x, &y, a == b, "numbers")
}

pub static C08: Prop = Prop {
    id: "C08",
    rule: "a case counts by the rule for documents, or when it compares a generated pair or triple; distinct by content",
    subs: &[
        Sub { name: "same-content", f: same_content, mode: Mode::Random, quick: 20_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "same-content-bulk", f: same_content_bulk, mode: Mode::Random, quick: 300, thorough: 10000, profiles: BOTH },
        Sub { name: "one-difference", f: one_difference, mode: Mode::Random, quick: 30_000, thorough: 2_000_000, profiles: BOTH },
        Sub { name: "one-difference-bulk", f: one_difference_bulk, mode: Mode::Random, quick: 1500, thorough: 50000, profiles: BOTH },
        Sub { name: "one-character", f: one_character, mode: Mode::Random, quick: 30_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "pairs", f: pairs, mode: Mode::Random, quick: 120_000, thorough: 5_000_000, profiles: BOTH },
        Sub { name: "numbers", f: number_pairs, mode: Mode::Random, quick: 100_000, thorough: 5_000_000, profiles: BOTH },
    ],
    assumptions: &["the reference model decides whether two values are the same"],
    known: no_known,
};

// ---- C09 ----------------------------------------------------------------------------------------

fn neighbour(s: &mut Src, k: &str) -> String {
    let mut c: Vec<char> = k.chars().collect();
    match s.raw(9) {
        0 => c.push('a'),
        1 => {
            c.pop();
        }
        2 => c.push('\0'),
        3 => {
            if let Some(l) = c.last_mut() {
                *l = char::from_u32(*l as u32 + 1).unwrap_or('z');
            }
        }
        4 => {
            if let Some(l) = c.last_mut() {
                *l = char::from_u32((*l as u32).wrapping_sub(1)).unwrap_or('z');
            }
        }
        5 => {
            if let Some(l) = c.first_mut() {
                *l = if *l == 'a' { 'b' } else { 'a' };
            }
        }
        6 => c.insert(0, 'a'),
        7 | 8 if !c.is_empty() => {
            let i = gen::spot(s, c.len());
            c[i] = match c[i] {
                'q' => 'p',
                x if x.is_ascii() => 'q',
                x => char::from_u32(x as u32 ^ 1).unwrap_or(x),
            };
        }
        _ => c = k.to_uppercase().chars().collect(),
    }
    c.into_iter().collect()
}

fn keys(s: &mut Src) -> R {
    let mut c = if s.chance(1, 10) { gen::Cfg::large() } else { gen::Cfg::normal() };
    let v = match s.weighted(&[50, 50]) {
        0 => gen::object(s, &mut c, 3),
        _ => {
            // many members with tiny values
            let style = s.raw(5);
            let salt = s.raw(255);
            let n = s.size(c.max_count);
            let n = if s.thorough { n } else { n.min(20_000) };
            let mut m: Vec<(String, Val)> = (0..n).map(|i| (gen::family_key(style, salt, i), Val::Num(Dec::from_i64(i as i64)))).collect();
            let extra = s.below(6);
            for _ in 0..extra {
                let k = gen::gen_key(s, 300);
                if m.len() < 65535 && !m.iter().any(|x| x.0 == k) {
                    m.push((k, Val::Bool(true)));
                }
            }
            Val::Obj(m)
        }
    };
    classify(s, &v);
    let Val::Obj(m) = &v else { unreachable!() };
    let d = build(s, &v)?;
    let o = d.yason().object().map_err(|e| e.to_string())?;
    check_object(&o, m, &Opt { types: false, all_upto: 700 }, "$")?;
    // iteration order, stated directly
    let ks: Vec<&str> = o.key_iter().map_err(|e| e.to_string())?.map(|k| k.map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
    for w in ks.windows(2) {
        if !key_lt(w[0], w[1]) {
            return Err(format!("keys out of order: {:?} before {:?}", w[0], w[1]));
        }
    }
    let set: std::collections::HashMap<&str, &Val> = m.iter().map(|(k, v)| (k.as_str(), v)).collect();
    let mut asked: Vec<String> = vec!["".into(), "zzzzzzzzzzzz".into(), "~".repeat(400), "0".into()];
    for _ in 0..12 {
        if m.is_empty() {
            break;
        }
        let k = m[s.below(m.len())].0.clone();
        if k.len() <= 70_000 {
            let n = neighbour(s, &k);
            asked.push(neighbour(s, &n));
            asked.push(n);
        }
    }
    // a key longer than any that can be stored
    if s.chance(1, 30) {
        asked.push("k".repeat(65536 + s.below(20)));
        if let Some((k, _)) = m.first() {
            asked.push(k.clone() + &"\0".repeat(65536));
        }
    }
    let mut absent = 0;
    for k in &asked {
        let w = set.get(k.as_str()).copied();
        absent += w.is_none() as usize;
        check_key(&o, k, w, &LIGHT, "$")?;
    }
    s.label_if(absent > 0, "absent keys asked for");
    s.label_if(m.len() > 255, "object of more than 255 members");
    Ok(())
}

/// few long keys of one length (or lengths next to each other) that differ in one character, some of them pushed,
/// all of them asked for
fn long_keys(s: &mut Src) -> R {
    let top = match s.raw(3) {
        0 => 400,
        1 => 3000,
        2 => 20_000,
        _ => 65_534,
    };
    let n = 1 + s.size(top - 1).max(s.below(top));
    let base: Vec<u8> = match s.raw(2) {
        0 => vec![b'k'; n],
        1 => (0..n).map(|i| b'a' + (i % 23) as u8).collect(),
        _ => (0..n).map(|i| b'a' + ((i * i / 7) % 26) as u8).collect(),
    };
    let mut pool: Vec<String> = vec![String::from_utf8(base.clone()).unwrap()];
    for _ in 0..1 + s.below(5) {
        let mut k = base.clone();
        let i = gen::spot(s, n);
        k[i] = *s.pick(&[b'z', b'A', k[i] + 1, k[i] - 1, 0, 0x7f]);
        if s.chance(1, 4) {
            let j = gen::spot(s, n);
            k[j] = b'!';
        }
        match s.raw(5) {
            0 => k.push(b'x'),
            1 => {
                k.pop();
            }
            _ => {}
        }
        let k = String::from_utf8(k).unwrap();
        if !pool.contains(&k) {
            pool.push(k);
        }
    }
    for i in 0..s.below(4) {
        pool.push(gen::family_key(0, 0, i));
    }
    let mut seen = std::collections::HashSet::new();
    pool.retain(|k| seen.insert(k.clone()));
    let m: Vec<(String, Val)> =
        pool.iter().enumerate().filter(|(_, k)| k.len() <= 65535).filter_map(|(i, k)| if s.chance(2, 3) { Some((k.clone(), Val::Num(Dec::from_i64(i as i64)))) } else { None }).collect();
    let v = Val::Obj(m.clone());
    classify(s, &v);
    let d = build(s, &v)?;
    let o = d.yason().object().map_err(|e| e.to_string())?;
    let mut absent = 0;
    for k in &pool {
        let w = m.iter().find(|x| x.0 == *k).map(|x| &x.1);
        absent += w.is_none() as usize;
        check_key(&o, k, w, &LIGHT, "$")?;
    }
    let ks: Vec<&str> = o.key_iter().map_err(|e| e.to_string())?.map(|k| k.map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
    if ks.len() != m.len() || ks.windows(2).any(|w| !key_lt(w[0], w[1])) {
        return Err("long keys are listed incompletely or out of order".into());
    }
    s.label_if(absent > 0, "absent long keys asked for");
    s.label_if(n > 4096, "keys longer than 4096");
    Ok(())
}

/// all subsets of a pool of keys, each asked for every key of the pool and its neighbours
fn subsets(s: &mut Src) -> R {
    const POOL: [&str; 9] = ["", "a", "b", "aa", "ab", "ba", "é", "aaa", "b\0"];
    const OTHER: [&str; 9] = ["c", "\0", "A", "ac", "ê", "aab", "b", "aaaa", "b\u{1}"];
    let m: Vec<(String, Val)> =
        POOL.iter().enumerate().filter_map(|(i, k)| if s.chance(1, 2) { Some((k.to_string(), Val::Num(Dec::from_i64(i as i64)))) } else { None }).collect();
    let how = s.raw(2);
    if !s.mine() {
        return Ok(());
    }
    let v = Val::Obj(m.clone());
    classify(s, &v);
    let mut q: Vec<(String, Plan)> = m.iter().map(|(k, v)| (k.clone(), straight(v))).collect();
    match how {
        0 => {}
        1 => q.reverse(),
        _ => q.sort_by(|a, b| yvbase::model::key_cmp(&a.0, &b.0)),
    }
    let y = owned(&Plan::Obj(how == 2, q)).map_err(|e| e.to_string())?;
    let o = y.object().map_err(|e| e.to_string())?;
    check_object(&o, &m, &FULL, "$")?;
    for k in POOL.iter().chain(OTHER.iter()) {
        check_key(&o, k, m.iter().find(|x| x.0 == *k).map(|x| &x.1), &FULL, "$")?;
    }
    Ok(())
}

pub static C09: Prop = Prop {
    id: "C09",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "keys", f: keys, mode: Mode::Random, quick: 30_000, thorough: 800_000, profiles: BOTH },
        Sub { name: "long-keys", f: long_keys, mode: Mode::Random, quick: 12_000, thorough: 300_000, profiles: BOTH },
        Sub { name: "subsets", f: subsets, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
    ],
    assumptions: &["keys pushed into one object are distinct"],
    known: no_known,
};

// ---- C10 ----------------------------------------------------------------------------------------

fn typed(s: &mut Src) -> R {
    let c = if s.chance(2, 3) { gen::Cfg::small() } else { gen::Cfg::normal() };
    let v = doc_with(s, &c);
    let d = build(s, &v)?;
    check_doc(d.yason(), &v, &FULL)?;
    outside(s, &Value::try_from(d.yason()).map_err(|e| e.to_string())?, &v, 0)
}

/// the same with large documents
fn typed_bulk(s: &mut Src) -> R {
    s.bulk = true;
    typed(s)
}

/// wide arrays and objects, asked for everything at every place
fn wide(s: &mut Src) -> R {
    let n = match s.weighted(&[55, 35, 10]) {
        0 => 200 + s.below(4_000),
        1 => 4_000 + s.below(61_000),
        _ => 65_535 - s.below(30),
    };
    let run = 1 + s.small(400);
    let salt = s.raw(1 << 20) as usize;
    let item = |i: usize| {
        let h = (i / run + salt).wrapping_mul(0x9E37_79B9) >> 7;
        match h % 6 {
            0 => Val::Null,
            1 => Val::Bool(i % 2 == 0),
            2 => Val::Num(Dec::from_i64(i as i64)),
            3 => Val::Str(i.to_string()),
            4 => Val::Arr(vec![Val::Bool(true); h / 6 % 3]),
            _ => Val::Obj(if i % 2 == 0 { vec![] } else { vec![("a".into(), Val::Num(Dec::from_i64(i as i64)))] }),
        }
    };
    s.count((n as u64) << 32 | (run as u64) << 20 | salt as u64);
    s.label_if(n > 32_767, "more than 32767 values");
    s.note(|| format!("{} values, types in runs of {}, salt {}", n, run, salt));
    let few = Opt { types: true, all_upto: 20 };
    if s.chance(1, 4) {
        let m: Vec<(String, Val)> = (0..n).map(|i| (format!("{:05}", i * 3 % 65_536), item(i))).collect();
        let mut seen = vec![false; 65_536];
        let m: Vec<(String, Val)> = m.into_iter().filter(|x| !std::mem::replace(&mut seen[x.0.parse::<usize>().unwrap()], true)).collect();
        let v = Val::Obj(m);
        let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
        let o = y.object().map_err(|e| e.to_string())?;
        let Val::Obj(m) = &v else { unreachable!() };
        for (k, w) in m {
            check_key(&o, k, Some(w), &few, "$")?;
        }
        for _ in 0..50 {
            let k = format!("{:05}", s.below(100_000));
            let w = m.iter().find(|x| x.0 == k).map(|x| &x.1);
            check_key(&o, &k, w, &few, "$")?;
        }
        return Ok(());
    }
    let e: Vec<Val> = (0..n).map(item).collect();
    let v = Val::Arr(e);
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    let a = y.array().map_err(|e| e.to_string())?;
    let Val::Arr(e) = &v else { unreachable!() };
    for i in (0..n).chain([n, n + 1, 65_535.max(n), 65_536, 65_536 + n / 2, 1 << 32]) {
        check_index(&a, i, e, &few, "$")?;
    }
    Ok(())
}

/// absent keys and indices past the end, everywhere
fn outside(s: &mut Src, x: &Value, v: &Val, depth: usize) -> R {
    match (x, v) {
        (Value::Object(o), Val::Obj(m)) => {
            let k = gen::gen_key(s, 12);
            check_key(o, &k, m.iter().find(|x| x.0 == k).map(|x| &x.1), &FULL, "$")?;
            if depth < 8 {
                for (k, w) in m.iter().take(20) {
                    if matches!(w, Val::Arr(_) | Val::Obj(_)) {
                        let g = o.get(k).map_err(|e| e.to_string())?.ok_or("member lost")?;
                        outside(s, &g, w, depth + 1)?;
                    }
                }
            }
        }
        (Value::Array(a), Val::Arr(e)) => {
            for i in [e.len(), e.len() + 1, e.len() + s.below(300), 65535.max(e.len()), 65536, 65536 + e.len() / 2, usize::MAX, usize::MAX / 5, u32::MAX as usize, (1 << 32) + e.len() / 2] {
                check_index(a, i, e, &FULL, "$")?;
            }
            if depth < 8 {
                for (i, w) in e.iter().enumerate().take(20) {
                    if matches!(w, Val::Arr(_) | Val::Obj(_)) {
                        let g = a.get(i).map_err(|e| e.to_string())?;
                        outside(s, &g, w, depth + 1)?;
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

/// every stored type at every place, asked for every type
fn matrix(s: &mut Src) -> R {
    let t = TYPES[s.below(6)];
    let full = s.chance(1, 2);
    let before = s.below(3);
    let after = s.below(3);
    if !s.mine() {
        return Ok(());
    }
    let v = match t {
        Ty::Object => Val::Obj(if full { vec![("a".into(), Val::Null), ("bb".into(), Val::Arr(vec![]))] } else { vec![] }),
        Ty::Array => Val::Arr(if full { vec![Val::Bool(true), Val::Str("q".into())] } else { vec![] }),
        Ty::String => Val::Str(if full { "text".into() } else { "".into() }),
        Ty::Number => Val::Num(Dec::from_i64(if full { 123456 } else { 0 })),
        Ty::Bool => Val::Bool(full),
        Ty::Null => Val::Null,
    };
    s.count((t as u64) << 8 | (full as u64) << 7 | (before as u64) << 4 | after as u64);
    s.label("type at a place");
    let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
    check_doc(&y, &v, &FULL)?;
    let fill = [Val::Str("pad".into()), Val::Num(Dec::from_i64(5)), Val::Bool(true)];
    let mut a: Vec<Val> = fill[..before].to_vec();
    a.push(v.clone());
    a.extend_from_slice(&fill[..after]);
    let m: Vec<(String, Val)> = a.iter().enumerate().map(|(i, v)| (format!("k{}", i), v.clone())).collect();
    for w in [Val::Arr(a.clone()), Val::Obj(m.clone())] {
        let y = owned(&straight(&w)).map_err(|e| e.to_string())?;
        check_doc(&y, &w, &FULL)?;
    }
    // the names and codes of the types
    for code in 0..=255u8 {
        let want = TYPES.iter().find(|t| **t as u8 == code);
        match (DataType::try_from(code), want) {
            (Ok(d), Some(t)) if d == dt(*t) && d.name() == t.name() && u8::from(d) == code => {}
            (Err(_), None) => {}
            (r, _) => return Err(format!("type code {} gives {:?}", code, r.map_err(|e| e.to_string()))),
        }
    }
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "typed", f: typed, mode: Mode::Random, quick: 60_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "typed-bulk", f: typed_bulk, mode: Mode::Random, quick: 300, thorough: 10000, profiles: BOTH },
        Sub { name: "wide", f: wide, mode: Mode::Random, quick: 300, thorough: 12_000, profiles: BOTH },
        Sub { name: "matrix", f: matrix, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
    ],
    assumptions: &[],
    known: no_known,
};
