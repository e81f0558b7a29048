//! C04 JSON text, C05 JSON numbers.
use super::*;
use crate::drive::*;
use crate::read::*;
use yason::*;
use yvbase::dec::{gen_digits, spell, Dec, Stored};
use yvbase::engine::{clip, hash_bytes};
use yvbase::json;
use yvbase::run::*;

/// The three entry points; their agreement is part of the result.
pub fn parse_all(t: &str, prefix: &[u8]) -> Result<Result<YasonBuf, BuildError>, String> {
    let tight = crate::dirty::snug(t);
    let t = &*tight;
    let a = YasonBuf::parse(t);
    let mut vec = prefix.to_vec();
    let b = Yason::parse_to(&mut vec, t).map(|y| y.as_bytes().to_vec());
    let c = match serde_json::from_str::<serde_json::Value>(t) {
        Ok(v) => YasonBuf::try_from(&v),
        Err(e) => Err(BuildError::JsonError(e)),
    };
    let show = |r: &Result<(), &BuildError>| match r {
        Ok(()) => "accepted".to_string(),
        Err(e) => format!("refused ({})", e),
    };
    let (ra, rb, rc) = (a.as_ref().map(|_| ()), b.as_ref().map(|_| ()), c.as_ref().map(|_| ()));
    if ra.is_ok() != rb.is_ok() || ra.is_ok() != rc.is_ok() {
        return Err(format!("the entry points disagree: parse {}, parse_to {}, try_from {}", show(&ra), show(&rb), show(&rc)));
    }
    if vec.len() < prefix.len() || vec[..prefix.len()] != *prefix {
        return Err("parse_to changed what the vector held".into());
    }
    if let (Ok(a), Ok(b), Ok(c)) = (&a, &b, &c) {
        if a.as_bytes() != &b[..] {
            return Err("parse and parse_to give different bytes".into());
        }
        if a.as_bytes() != c.as_bytes() {
            return Err("parse and try_from give different bytes".into());
        }
        if vec[prefix.len()..] != b[..] {
            return Err("parse_to does not append exactly the document".into());
        }
    }
    Ok(a)
}

fn text_to_doc(s: &mut Src) -> R {
    let v = any_doc(s);
    let st = json::gen_style(s);
    let t = json::spell_text(s, &st, &v);
    s.note(|| format!("text: {}", clip(&t, 800)));
    s.label_if(st.ws > 0, "whitespace");
    let p = json::parse(&t).ok_or("harness: the generated text is not valid for the reference reader")?;
    if p.val.canon() != v.canon() {
        return Err("harness: the reference reader disagrees with the generator".into());
    }
    s.label_if(p.dropped, "duplicate keys");
    if p.marker {
        return Ok(());
    }
    let pre: Vec<u8> = (0..s.held()).map(|i| 0xF0 | i as u8).collect();
    let y = parse_all(&t, &pre)?.map_err(|e| format!("a valid text is refused: {}", e))?;
    check_doc(&y, &v, &LIGHT)?;
    if content_of(&y)? != v.canon() {
        return Err("the content read through the iterators differs from what the text denotes".into());
    }
    Ok(())
}

/// the same with large documents
fn text_to_doc_bulk(s: &mut Src) -> R {
    s.bulk = true;
    text_to_doc(s)
}

/// every single character, plain where allowed and in each escaped form, as value and as key
fn characters(s: &mut Src) -> R {
    let block = s.raw(0x10ffff / 256);
    let form = s.raw(3);
    if !s.mine() {
        return Ok(());
    }
    if !s.thorough && block > 8 && block % 29 != 0 && block != 0xd7 && block != 0xe0 && block != 0xff && block != 0x10ff {
        return Ok(());
    }
    let mut t = String::from("[");
    let mut want = Vec::new();
    for c in (block as u32 * 256..block as u32 * 256 + 256).filter_map(char::from_u32) {
        let mut lit = String::from("\"");
        let mut b = [0u16; 2];
        match form {
            0 | 1 if (c as u32) >= 0x20 && c != '"' && c != '\\' => {
                if form == 1 {
                    lit.push_str("pre");
                }
                lit.push(c);
            }
            _ => {
                for u in c.encode_utf16(&mut b) {
                    lit.push_str(&if form % 2 == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
                }
            }
        }
        lit.push('"');
        if t.len() > 1 {
            t.push(',');
        }
        t.push_str(&format!("{},{{{}:0}}", lit, lit));
        let mut k = String::new();
        if form == 1 && (c as u32) >= 0x20 && c != '"' && c != '\\' {
            k.push_str("pre");
        }
        k.push(c);
        want.push(Val::Str(k.clone()));
        want.push(Val::Obj(vec![(k, Val::Num(Dec::zero()))]));
    }
    t.push(']');
    s.count(hash_bytes(t.as_bytes()));
    s.note(|| format!("text: {}", clip(&t, 800)));
    let y = parse_all(&t, b"")?.map_err(|e| format!("block {:#x}: {}", block, e))?;
    if content_of(&y)? != Val::Arr(want) {
        return Err(format!("characters of block {:#x}: wrong content", block));
    }
    Ok(())
}

/// many numbers of assorted kinds and spellings next to each other
fn numbers_among(s: &mut Src) -> R {
    let n = s.range(1, 12);
    let mut t = String::from("[");
    let mut want = Vec::new();
    for i in 0..n {
        let (x, w) = loop {
            let d = if s.chance(1, 2) { yvbase::dec::gen_dec(s) } else { gen_exact(s) };
            let x = spell(s, &d);
            if !in_domain(&x) {
                continue;
            }
            match d.stored() {
                Stored::Value(w) => {
                    s.label_if(w.is_zero() && !d.is_zero(), "a number that becomes zero among others");
                    break (x, w);
                }
                Stored::Overflow => {}
            }
        };
        if i > 0 {
            t.push(',');
        }
        let key = format!("k{}", i);
        match s.raw(4) {
            0 => {
                t.push_str(&format!("{{\"{}\":{}}}", key, x));
                want.push(Val::Obj(vec![(key, Val::Num(w))]));
            }
            1 => {
                t.push_str(&format!("[{}]", x));
                want.push(Val::Arr(vec![Val::Num(w)]));
            }
            2 => {
                // as text, which is no number
                t.push_str(&format!("\"{}\"", x));
                want.push(Val::Str(x));
            }
            _ => {
                t.push_str(&x);
                want.push(Val::Num(w));
            }
        }
    }
    t.push(']');
    s.count(hash_bytes(t.as_bytes()));
    s.note(|| format!("text: {}", clip(&t, 800)));
    let y = parse_all(&t, b"p")?.map_err(|e| format!("a text of numbers in range is refused: {}", e))?;
    let c = content_of(&y)?;
    if c != Val::Arr(want) {
        return Err(format!("{} is read as {}", clip(&t, 300), y.format(false)));
    }
    Ok(())
}

pub static C04: Prop = Prop {
    id: "C04",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "texts", f: text_to_doc, mode: Mode::Random, quick: 50_000, thorough: 2_500_000, profiles: BOTH },
        Sub { name: "texts-bulk", f: text_to_doc_bulk, mode: Mode::Random, quick: 300, thorough: 10000, profiles: BOTH },
        Sub { name: "long-vectors", f: super::build::long_vectors, mode: Mode::Random, quick: 150, thorough: 5000, profiles: BOTH },
        Sub { name: "numbers-among", f: numbers_among, mode: Mode::Random, quick: 40_000, thorough: 2_000_000, profiles: BOTH },
        Sub { name: "characters", f: characters, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: REL },
    ],
    assumptions: &[
        "the reference reader (yvbase::json) is right about what a text denotes",
        "texts whose strings contain the number marker of the JSON library ($serde_json) are left out",
    ],
    known: known_marker,
};

/// An object whose only key is the JSON library's private number marker is taken for a number.
fn known_marker() -> Vec<(String, R)> {
    let t = r#"{"$serde_json::private::Number":"1"}"#;
    let r = match YasonBuf::parse(t) {
        Ok(y) if y.data_type().ok() == Some(DataType::Object) => Ok(()),
        Ok(y) => Err(format!("{} is stored as {}", t, y.format(false))),
        Err(e) => Err(format!("{} is refused: {}", t, e)),
    };
    vec![("serde-json-number-marker".into(), r)]
}

// ---- C05 ----------------------------------------------------------------------------------------

/// an exact number, of more digits than can be stored or out of range now and then
pub fn gen_exact(s: &mut Src) -> Dec {
    match s.weighted(&[35, 30, 20, 15]) {
        0 => yvbase::dec::gen_dec(s),
        1 => {
            // more digits than fit
            let d = gen_digits(s, 120);
            let e = s.raw(120) as i64 - 100;
            Dec::new(s.chance(1, 3), &d, e)
        }
        2 => {
            // close to the limits of the range
            let d = gen_digits(s, 60);
            let mag = *s.pick(&[126i64, 127, 125, 128, -130, -129, -131, -128, 200, -200, 0, 39, -39, 999, -999, 500]);
            let n = d.len() as i64;
            Dec::new(s.chance(1, 3), &d, mag - n)
        }
        _ => {
            let d = gen_digits(s, 2000);
            let n = d.len() as i64;
            let mag = s.raw(300) as i64 - 150;
            Dec::new(s.chance(1, 3), &d, mag - n)
        }
    }
}

/// Inside the domain where the decimal library is exact: at most three significant exponent digits,
/// or more with a short mantissa.
pub fn in_domain(t: &str) -> bool {
    let (m, e) = match t.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&t[..i], t[i + 1..].trim_start_matches(|c| c == '+' || c == '-' || c == '0').len()),
        None => (t, 0),
    };
    m.len() <= 2100 && (e <= 3 || m.len() <= 500) && !(e > 3 && m.contains("0.00"))
}

fn numbers(s: &mut Src) -> R {
    let d = gen_exact(s);
    let t = spell(s, &d);
    let t2 = spell(s, &d);
    s.note(|| format!("{}\n{}", t, t2));
    if !in_domain(&t) || !in_domain(&t2) {
        s.label("outside the domain of the decimal library");
        return Ok(());
    }
    if Dec::parse(&t).as_ref() != Some(&d) || Dec::parse(&t2).as_ref() != Some(&d) {
        return Err("harness: a spelling of another value".into());
    }
    s.count(hash_bytes(t.as_bytes()));
    s.label_if(d.digits.len() > 38, "more than 38 digits");
    let shape = s.raw(3);
    let (a, b) = match shape {
        0 => (t.clone(), t2.clone()),
        1 => (format!("[{}]", t), format!("[{} ]", t2)),
        2 => (format!("{{\"n\":{}}}", t), format!("{{\"n\": {}}}", t2)),
        _ => (format!("[true,{{\"a\":[{},1]}}]", t), format!("[true,{{\"a\":[{},1e0]}}]", t2)),
    };
    let ra = parse_all(&a, b"zz")?;
    let rb = parse_all(&b, b"")?;
    match d.stored() {
        Stored::Overflow => {
            s.label("overflow");
            for r in [ra, rb] {
                match r {
                    Err(BuildError::NumberError(NumberError::Overflow)) => {}
                    Err(e) => return Err(format!("a number of magnitude {} gives another error: {}", d.magnitude(), e)),
                    Ok(_) => return Err(format!("a number of magnitude {} is accepted", d.magnitude())),
                }
            }
        }
        Stored::Value(w) => {
            s.label_if(w.is_zero() && !d.is_zero(), "underflow to zero");
            let (ya, yb) = match (ra, rb) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(e), _) | (_, Err(e)) => return Err(format!("a number in range is refused: {}", e)),
            };
            for y in [&ya, &yb] {
                let n = match shape {
                    0 => y.number().map_err(|e| e.to_string())?,
                    1 => y.array().and_then(|a| a.number(0)).map_err(|e| e.to_string())?,
                    2 => y.object().and_then(|o| o.number("n")).map_err(|e| e.to_string())?.ok_or("member missing")?,
                    _ => y
                        .array()
                        .and_then(|a| a.object(1))
                        .and_then(|o| o.array("a"))
                        .map_err(|e| e.to_string())?
                        .ok_or("member missing")?
                        .number(0)
                        .map_err(|e| e.to_string())?,
                };
                let g = of_number(&n);
                if g != w {
                    return Err(format!("stored as {} but the text denotes {}", g.text(), w.text()));
                }
            }
            if !ya.equals(&yb).map_err(|e| e.to_string())? {
                return Err("two spellings of one number give unequal documents".into());
            }
            // from builders
            let n = to_number(&w);
            let y = Scalar::number(&n).map_err(|e| e.to_string())?;
            if of_number(&y.number().map_err(|e| e.to_string())?) != w {
                return Err("the scalar builder stores another number".into());
            }
        }
    }
    Ok(())
}

fn known_numbers() -> Vec<(String, R)> {
    // exponents of four digits or more are given up on before the mantissa is considered, and the
    // scale of very long digit strings wraps
    let check = |t: String, want: &str| -> R {
        let w = Dec::parse(want).unwrap();
        match YasonBuf::parse(&t) {
            Ok(y) if of_number(&y.number().map_err(|e| e.to_string())?) == w => Ok(()),
            Ok(y) => Err(format!("stored as {} but the text denotes {}", y.format(false), want)),
            Err(e) => Err(e.to_string()),
        }
    };
    vec![
        ("decimal-long-fraction-big-exponent".into(), check(format!("0.{}1e1001", "0".repeat(1000)), "1")),
        ("decimal-long-integer-negative-exponent".into(), check(format!("1{}e-1000", "0".repeat(1000)), "1")),
        ("decimal-32768-digits".into(), check(format!("0.{}1", "0".repeat(33000)), "0")),
    ]
}

pub static C05: Prop = Prop {
    id: "C05",
    rule: "a case counts when it is a pair of spellings inside the domain; distinct by the first text",
    subs: &[Sub { name: "numbers", f: numbers, mode: Mode::Random, quick: 400_000, thorough: 12_000_000, profiles: BOTH }],
    assumptions: &[
        "numbers of more than about 2000 digits, and exponents of four or more digits with a long mantissa, are outside the domain: the decimal library misjudges them (known findings)",
        "the reference arithmetic (yvbase::dec) is right about exact values and rounding",
    ],
    known: known_numbers,
};
