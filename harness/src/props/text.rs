//! C06 formatting is JSON and round-trips, C07 layout and output routes.
use super::*;
use crate::drive::*;
use crate::read::content_of;
use std::fmt::Write;
use std::str::FromStr;
use yason::*;
use yvbase::dec::Dec;
use yvbase::engine::clip;
use yvbase::json;
use yvbase::run::*;

pub fn text(y: &Yason, pretty: bool) -> Result<String, String> {
    let mut t = String::new();
    y.format_to(pretty, &mut t).map_err(|e| format!("formatting fails: {}", e))?;
    Ok(t)
}

/// the text without whitespace outside strings
fn squeeze(t: &str) -> String {
    let mut o = String::with_capacity(t.len());
    let (mut ins, mut esc) = (false, false);
    for c in t.chars() {
        if ins {
            o.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                ins = false;
            }
        } else if !matches!(c, ' ' | '\n' | '\r' | '\t') {
            ins = c == '"';
            o.push(c);
        }
    }
    o
}

/// valid JSON that denotes `v`; Ok(true) when it can also be parsed by the crate
fn denotes(t: &str, v: &Val, what: &str) -> Result<bool, String> {
    let p = json::parse(t).ok_or_else(|| format!("{} text is not valid JSON: {}", what, clip(t, 300)))?;
    if p.dropped {
        return Err(format!("{} text repeats a key: {}", what, clip(t, 300)));
    }
    if p.val.canon() != v.canon() {
        return Err(format!("{} text denotes another value: {}", what, clip(t, 300)));
    }
    Ok(!p.marker)
}

fn formats(s: &mut Src) -> R {
    let v = any_doc(s);
    let d = build(s, &v)?;
    let y = d.yason();
    let c = text(y, false)?;
    let p = text(y, true)?;
    let ok = denotes(&c, &v, "compact")? & denotes(&p, &v, "pretty")?;
    if squeeze(&p) != squeeze(&c) {
        return Err(format!("compact and pretty text differ in more than whitespace: {} / {}", clip(&c, 200), clip(&p, 200)));
    }
    if !ok {
        return Ok(());
    }
    for (t, what) in [(&c, "compact"), (&p, "pretty")] {
        let back = YasonBuf::parse(t).map_err(|e| format!("the {} text is refused by the parser: {}", what, e))?;
        if !back.equals(y).map_err(|e| e.to_string())? || !y.equals(&back).map_err(|e| e.to_string())? {
            return Err(format!("parsing the {} text gives an unequal document: {}", what, clip(t, 300)));
        }
        if content_of(&back)? != v.canon() {
            return Err(format!("parsing the {} text gives other content: {}", what, clip(t, 300)));
        }
        if text(&back, false)? != c {
            return Err(format!("formatting again gives another text than {}", clip(&c, 300)));
        }
    }
    Ok(())
}

/// the same with large documents
fn formats_bulk(s: &mut Src) -> R {
    s.bulk = true;
    formats(s)
}

/// every single character as a string, a key and an array element
fn characters(s: &mut Src) -> R {
    let block = s.raw(0x10ffff / 256);
    if !s.mine() {
        return Ok(());
    }
    if !s.thorough && block > 8 && block % 29 != 0 && block != 0xd7 && block != 0xe0 && block != 0xff && block != 0x10ff {
        return Ok(());
    }
    for c in (block as u32 * 256..block as u32 * 256 + 256).filter_map(char::from_u32) {
        s.count(c as u64);
        let pad = ["", "ab", "z"][c as usize % 3];
        let t = format!("{}{}{}", pad, c, pad);
        let v = Val::Obj(vec![(t.clone(), Val::Str(t.clone())), (format!("{}{}q", t, t), Val::Arr(vec![Val::Str(c.to_string())]))]);
        let y = owned(&straight(&v)).map_err(|e| e.to_string())?;
        for pretty in [false, true] {
            let o = text(&y, pretty)?;
            denotes(&o, &v, "formatted").map_err(|e| format!("U+{:04X}: {}", c as u32, e))?;
            let back = YasonBuf::parse(&o).map_err(|e| format!("U+{:04X}: {}", c as u32, e))?;
            if back != y {
                return Err(format!("U+{:04X} does not survive formatting and parsing", c as u32));
            }
        }
    }
    Ok(())
}

/// results of wrapped queries, one level deeper than a document can be
fn results(s: &mut Src) -> R {
    let mut c = gen::Cfg::normal();
    c.max_count = 40;
    let v = doc_with(s, &c);
    let d = build(s, &v)?;
    let with_buf = s.chance(1, 2);
    let mut buf = vec![0u8; s.held()];
    let path: PathExpression = s
        .pick(&["$", "$.*", "$[*]", "$..a", "$.size()", "$.*.type()", "$[0]", "$[last]", "$.a", "$.*[0]", "$.count()"])
        .parse()
        .map_err(|e| format!("{}", e))?;
    // a single result can do without the wrapper
    let bare = s.chance(1, 2);
    let mut q = None;
    if bare {
        match path.query(d.yason(), false, None, None) {
            Ok(r) => q = Some(r),
            Err(YasonError::MultiValuesWithoutWrapper) => {}
            Err(e) => return Err(e.to_string()),
        }
    }
    s.label_if(q.is_some(), "result without wrapper");
    let q = match q {
        Some(q) => q,
        None => path.query(d.yason(), true, None, if with_buf { Some(&mut buf) } else { None }).map_err(|e| e.to_string())?,
    };
    s.label_if(matches!(&q, QueriedValue::Value(Value::String(_))), "a string result without wrapper");
    let mut c = String::new();
    let mut p = String::new();
    q.format_to(false, &mut c).map_err(|e| e.to_string())?;
    q.format_to(true, &mut p).map_err(|e| e.to_string())?;
    if let QueriedValue::None = q {
        if !c.is_empty() || !p.is_empty() {
            return Err("no result, but formatting it gives text".into());
        }
        return Ok(());
    }
    let a = json::parse(&c).ok_or_else(|| format!("compact result is not valid JSON: {}", clip(&c, 300)))?;
    let b = json::parse(&p).ok_or_else(|| format!("pretty result is not valid JSON: {}", clip(&p, 300)))?;
    s.label_if(a.any_depth > 100, "result nested deeper than 100");
    if a.val.canon() != b.val.canon() || squeeze(&p) != squeeze(&c) {
        return Err(format!("compact and pretty result differ: {} / {}", clip(&c, 200), clip(&p, 200)));
    }
    if c != json::compact(&a.val, &num_text) || p != json::pretty(&a.val, &num_text) {
        return Err(format!("the layout of a formatted result is not that of a document: {} / {}", clip(&c, 200), clip(&p, 200)));
    }
    Ok(())
}

pub static C06: Prop = Prop {
    id: "C06",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "formats", f: formats, mode: Mode::Random, quick: 32_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "formats-bulk", f: formats_bulk, mode: Mode::Random, quick: 300, thorough: 10000, profiles: BOTH },
        Sub { name: "results", f: results, mode: Mode::Random, quick: 22_000, thorough: 800_000, profiles: BOTH },
        Sub { name: "characters", f: characters, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: REL },
    ],
    assumptions: &["the reference JSON reader (yvbase::json) is strict RFC 8259"],
    known: no_known,
};

// ---- C07 ----------------------------------------------------------------------------------------

/// keeps everything, in the pieces it arrived
#[derive(Default)]
struct Pieces(Vec<String>, bool);
impl Write for Pieces {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        // every piece is text of its own
        match std::str::from_utf8(std::hint::black_box(t.as_bytes())) {
            Ok(t) => self.0.push(t.to_string()),
            Err(_) => self.1 = true,
        }
        Ok(())
    }
}

/// fails at the given write, or when more than the given bytes would be held
struct Failing {
    held: String,
    writes: usize,
    bytes: usize,
    partial: bool,
    after: usize,
    failed: bool,
}
impl Write for Failing {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(std::fmt::Error);
        }
        if self.writes == 0 || self.held.len() + t.len() > self.bytes {
            self.failed = true;
            if self.partial && self.writes > 0 {
                let mut n = self.bytes - self.held.len();
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                self.held.push_str(&t[..n]);
            }
            return Err(std::fmt::Error);
        }
        self.writes -= 1;
        self.held.push_str(t);
        Ok(())
    }
}

fn layout(s: &mut Src) -> R {
    let v = any_doc(s);
    let d = build(s, &v)?;
    laid_out(d.yason(), &v)
}

/// deeply nested documents, and documents put into the results of queries again and again, which makes them deeper
/// than what can be built
fn deep(s: &mut Src) -> R {
    let mut v = s.pick(&[Val::Null, Val::Str("leaf".into()), Val::Obj(vec![]), Val::Arr(vec![]), Val::Arr(vec![Val::Null, Val::Bool(true)])]).clone();
    let depth = s.below(101).max(s.below(101));
    let style = s.below(3);
    while v.depth() < depth {
        let side = match s.below(6) {
            0 => Some(Val::Obj(vec![])),
            1 => Some(Val::Arr(vec![Val::Bool(false)])),
            2 => Some(Val::Num(Dec::from_i64(7))),
            _ => None,
        };
        let first = s.chance(1, 2);
        v = if style == 0 || (style == 2 && s.chance(1, 2)) {
            let mut e = vec![v];
            if let Some(x) = side {
                e.insert(if first { 0 } else { 1 }, x);
            }
            Val::Arr(e)
        } else {
            let mut m = vec![("k".to_string(), v)];
            if let Some(x) = side {
                m.push((if first { "a" } else { "m" }.to_string(), x));
            }
            Val::Obj(m)
        };
    }
    let d = build(s, &v)?;
    let k = if s.chance(2, 3) { s.wide(400) } else { 0 };
    let mut y = d.yason().to_owned();
    let p = PathExpression::from_str("$").map_err(|e| e.to_string())?;
    for _ in 0..k {
        let mut out = Vec::new();
        let next = match p.query(&y, true, None, Some(&mut out)).map_err(|e| e.to_string())? {
            QueriedValue::Yason(r) => r.to_owned(),
            _ => return Err("a query with a result buffer gives no document".into()),
        };
        y = next;
        v = Val::Arr(vec![v]);
    }
    s.count(yvbase::engine::hash_bytes(y.as_bytes()));
    s.label_if(v.depth() > 100, "deeper than can be built");
    s.label_if(v.depth() > 64, "more than 64 levels");
    laid_out(&y, &v)?;
    for pretty in [false, true] {
        let q = p.query(&y, true, None, None).map_err(|e| e.to_string())?;
        let mut got = String::new();
        q.format_to(pretty, &mut got).map_err(|e| e.to_string())?;
        let w = Val::Arr(vec![v.clone()]);
        let want = if pretty { json::pretty(&w, &num_text) } else { json::compact(&w, &num_text) };
        if got != want {
            return Err(format!("the list of one value {} levels deep is laid out otherwise: {}", v.depth(), clip(&got, 200)));
        }
    }
    Ok(())
}

fn laid_out(y: &Yason, v: &Val) -> R {
    for pretty in [false, true] {
        let name = if pretty { "pretty" } else { "compact" };
        let want = if pretty { json::pretty(v, &num_text) } else { json::compact(v, &num_text) };
        let got = text(y, pretty)?;
        if got != want {
            let i = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
            let cut = |t: &str| clip(&String::from_utf8_lossy(&t.as_bytes()[i.saturating_sub(20).min(t.len())..(i + 40).min(t.len())]), 80);
            return Err(format!("{} layout differs at byte {}: {:?} where {:?} is due", name, i, cut(&got), cut(&want)));
        }
        let shown = y.format(pretty).to_string();
        if shown != want {
            return Err(format!("the display adapter gives another {} text", name));
        }
        let mut p = Pieces::default();
        y.format_to(pretty, &mut p).map_err(|e| e.to_string())?;
        if p.1 {
            return Err(format!("a sink is given a piece of the {} text that cuts a character in two", name));
        }
        if p.0.concat() != want {
            return Err(format!("a recording sink receives another {} text", name));
        }
        // after what the sink already holds
        let mut held = String::from("held");
        y.format_to(pretty, &mut held).map_err(|e| e.to_string())?;
        if held.strip_prefix("held") != Some(&want) {
            return Err(format!("{} formatting disturbs what the sink held", name));
        }
        let mut f = String::new();
        write!(f, "<{}>", y.format(pretty)).map_err(|e| e.to_string())?;
        if f.strip_prefix('<').and_then(|x| x.strip_suffix('>')) != Some(&want) {
            return Err(format!("the display adapter inside a format string gives another {} text", name));
        }
    }
    Ok(())
}

/// the same with large documents
fn layout_bulk(s: &mut Src) -> R {
    s.bulk = true;
    layout(s)
}

fn fails_at(y: &Yason, v: &Val, pretty: bool, writes: usize, bytes: usize, partial: bool, full: &str) -> R {
    let _ = v;
    let mut f = Failing { held: String::new(), writes, bytes, partial, after: 0, failed: false };
    let r = y.format_to(pretty, &mut f);
    if f.failed {
        match r {
            Err(_) => {}
            Ok(()) => return Err(format!("the sink failed after {} bytes but formatting reports success", f.held.len())),
        }
        if f.after > 0 {
            return Err(format!("{} more writes after the sink failed", f.after));
        }
    } else {
        r.map_err(|e| format!("formatting fails although the sink did not: {}", e))?;
        if f.held != full {
            return Err("the sink did not fail and holds another text".into());
        }
    }
    if !full.starts_with(&f.held) {
        return Err(format!("what the failing sink accepted is not a prefix of the text: {}", clip(&f.held, 200)));
    }
    Ok(())
}

fn failing_sink(s: &mut Src) -> R {
    let c = if s.chance(3, 4) { gen::Cfg::small() } else { gen::Cfg::normal() };
    let v = doc_with(s, &c);
    let d = build(s, &v)?;
    let y = d.yason();
    let pretty = s.chance(1, 2);
    let full = text(y, pretty)?;
    let mut p = Pieces::default();
    y.format_to(pretty, &mut p).map_err(|e| e.to_string())?;
    let writes = p.0.len();
    if writes <= 80 {
        s.label("every write");
        for w in 0..=writes {
            fails_at(y, &v, pretty, w, usize::MAX, false, &full).map_err(|e| format!("failing at write {}: {}", w, e))?;
        }
    }
    for _ in 0..4 {
        let b = s.below(full.len() + 2);
        let partial = s.chance(1, 2);
        fails_at(y, &v, pretty, usize::MAX, b, partial, &full).map_err(|e| format!("failing at byte {}: {}", b, e))?;
    }
    // the display adapter reports it too
    let w = s.below(writes + 1);
    let mut f = Failing { held: String::new(), writes: w, bytes: usize::MAX, partial: false, after: 0, failed: false };
    let r = write!(f, "{}", y.format(pretty));
    if r.is_ok() == f.failed || !full.starts_with(&f.held) {
        return Err("the display adapter does not report the failure of the sink".into());
    }
    Ok(())
}

/// the same with large documents
fn failing_sink_bulk(s: &mut Src) -> R {
    s.bulk = true;
    failing_sink(s)
}

pub static C07: Prop = Prop {
    id: "C07",
    rule: DOC_RULE,
    subs: &[
        Sub { name: "layout", f: layout, mode: Mode::Random, quick: 50_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "layout-bulk", f: layout_bulk, mode: Mode::Random, quick: 150, thorough: 10000, profiles: BOTH },
        Sub { name: "deep", f: deep, mode: Mode::Random, quick: 6_000, thorough: 200_000, profiles: BOTH },
        Sub { name: "failing-sink", f: failing_sink, mode: Mode::Random, quick: 50_000, thorough: 1_500_000, profiles: BOTH },
        Sub { name: "failing-sink-bulk", f: failing_sink_bulk, mode: Mode::Random, quick: 100, thorough: 8000, profiles: BOTH },
    ],
    assumptions: &["the text of a single number is taken from the decimal library; its value is checked by C06"],
    known: no_known,
};
