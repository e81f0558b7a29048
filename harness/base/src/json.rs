//! Reference JSON: renderers of the two text layouts, a strict RFC 8259 reader, and a generator of
//! JSON texts in every legal spelling.
use crate::dec::{spell, Dec};
use crate::engine::Src;
use crate::model::{key_cmp, Val};

// ---- rendering ---------------------------------------------------------------------------------

/// the escapes the formatter is expected to use
pub fn quote(t: &str, out: &mut String) {
    out.push('"');
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '/' => out.push_str("\\/"),
            '\u{8}' => out.push_str("\\b"),
            '\t' => out.push_str("\\t"),
            '\n' => out.push_str("\\n"),
            '\u{c}' => out.push_str("\\f"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04X}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

pub type NumText<'a> = &'a dyn Fn(&Dec) -> String;

pub fn compact(v: &Val, num: NumText) -> String {
    let mut s = String::new();
    compact_to(v, num, &mut s);
    s
}
fn members(m: &[(String, Val)]) -> Vec<&(String, Val)> {
    let mut r: Vec<&(String, Val)> = m.iter().collect();
    r.sort_by(|a, b| key_cmp(&a.0, &b.0));
    r
}
fn compact_to(v: &Val, num: NumText, o: &mut String) {
    match v {
        Val::Null => o.push_str("null"),
        Val::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Val::Num(d) => o.push_str(&num(d)),
        Val::Str(t) => quote(t, o),
        Val::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                compact_to(x, num, o);
            }
            o.push(']');
        }
        Val::Obj(m) => {
            o.push('{');
            for (i, (k, x)) in members(m).into_iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                quote(k, o);
                o.push(':');
                compact_to(x, num, o);
            }
            o.push('}');
        }
    }
}

pub fn pretty(v: &Val, num: NumText) -> String {
    let mut s = String::new();
    pretty_to(v, num, 0, &mut s);
    s
}
fn line(level: usize, o: &mut String) {
    o.push('\n');
    for _ in 0..level {
        o.push_str("  ");
    }
}
fn pretty_to(v: &Val, num: NumText, level: usize, o: &mut String) {
    match v {
        Val::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                line(level + 1, o);
                pretty_to(x, num, level + 1, o);
            }
            line(level, o);
            o.push(']');
        }
        Val::Obj(m) => {
            o.push('{');
            for (i, (k, x)) in members(m).into_iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                line(level + 1, o);
                quote(k, o);
                o.push_str(" : ");
                if matches!(x, Val::Arr(_) | Val::Obj(_)) {
                    line(level + 1, o);
                }
                pretty_to(x, num, level + 1, o);
            }
            line(level, o);
            o.push('}');
        }
        _ => compact_to(v, num, o),
    }
}

// ---- strict reader -----------------------------------------------------------------------------

pub struct Parsed {
    /// numbers are exact, of any size
    pub val: Val,
    /// nesting of everything in the text, and of what survives duplicate removal
    pub any_depth: usize,
    /// a number or key that was dropped as a duplicate's value could have been refused
    pub dropped: bool,
    /// some string or key contains the marker that the JSON library treats specially
    pub marker: bool,
}

struct P<'a> {
    b: &'a [u8],
    t: &'a str,
    i: usize,
    max: usize,
    dropped: bool,
    marker: bool,
}

const DEPTH_LIMIT: usize = 600;

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &str, v: Val) -> Option<Val> {
        if self.t.get(self.i..)?.starts_with(s) {
            self.i += s.len();
            Some(v)
        } else {
            None
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = self.b.get(self.i..self.i + 4)?;
        let mut v = 0;
        for c in h {
            v = v * 16 + (*c as char).to_digit(16)?;
        }
        self.i += 4;
        Some(v)
    }
    fn string(&mut self) -> Option<String> {
        if *self.b.get(self.i)? != b'"' {
            return None;
        }
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = self.t.get(self.i..)?.chars().next()?;
            self.i += c.len_utf8();
            match c {
                '"' => break,
                '\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'"' => out.push('"'),
                        b'\\' => out.push('\\'),
                        b'/' => out.push('/'),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xD800..0xDC00).contains(&a) {
                                if self.b.get(self.i..self.i + 2)? != b"\\u" {
                                    return None;
                                }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&l) {
                                    return None;
                                }
                                out.push(char::from_u32(0x10000 + ((a - 0xD800) << 10) + (l - 0xDC00))?);
                            } else {
                                // a lone low surrogate is no character: None
                                out.push(char::from_u32(a)?);
                            }
                        }
                        _ => return None,
                    }
                }
                c if (c as u32) < 0x20 => return None,
                c => out.push(c),
            }
        }
        if out.contains("$serde_json") {
            self.marker = true;
        }
        Some(out)
    }
    fn number(&mut self) -> Option<Val> {
        let st = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E') {
            self.i += 1;
        }
        Dec::parse(self.t.get(st..self.i)?).map(Val::Num)
    }
    fn value(&mut self, depth: usize) -> Option<Val> {
        if depth > DEPTH_LIMIT {
            return None;
        }
        match *self.b.get(self.i)? {
            b'n' => self.lit("null", Val::Null),
            b't' => self.lit("true", Val::Bool(true)),
            b'f' => self.lit("false", Val::Bool(false)),
            b'"' => self.string().map(Val::Str),
            b'[' => {
                self.max = self.max.max(depth + 1);
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if *self.b.get(self.i)? == b']' {
                    self.i += 1;
                    return Some(Val::Arr(a));
                }
                loop {
                    self.ws();
                    a.push(self.value(depth + 1)?);
                    self.ws();
                    let c = *self.b.get(self.i)?;
                    self.i += 1;
                    match c {
                        b',' => {}
                        b']' => return Some(Val::Arr(a)),
                        _ => return None,
                    }
                }
            }
            b'{' => {
                self.max = self.max.max(depth + 1);
                self.i += 1;
                let mut keys: std::collections::HashMap<String, usize> = Default::default();
                let mut m: Vec<(String, Val)> = Vec::new();
                self.ws();
                if *self.b.get(self.i)? == b'}' {
                    self.i += 1;
                    return Some(Val::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if *self.b.get(self.i)? != b':' {
                        return None;
                    }
                    self.i += 1;
                    self.ws();
                    let v = self.value(depth + 1)?;
                    if let Some(i) = keys.get(&k) {
                        self.dropped = true;
                        m[*i].1 = v;
                    } else {
                        keys.insert(k.clone(), m.len());
                        m.push((k, v));
                    }
                    self.ws();
                    let c = *self.b.get(self.i)?;
                    self.i += 1;
                    match c {
                        b',' => {}
                        b'}' => return Some(Val::Obj(m)),
                        _ => return None,
                    }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        }
    }
}

/// The value an RFC 8259 text denotes (last duplicate wins); None if the text is not one (or nests
/// deeper than 600).
pub fn parse(t: &str) -> Option<Parsed> {
    let mut p = P { b: t.as_bytes(), t, i: 0, max: 0, dropped: false, marker: false };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() {
        return None;
    }
    Some(Parsed { val: v, any_depth: p.max, dropped: p.dropped, marker: p.marker })
}

/// maximum bracket nesting outside strings, whether or not the text is valid
pub fn rough_depth(t: &str) -> usize {
    let (mut d, mut max, mut ins, mut esc) = (0usize, 0usize, false, false);
    for b in t.bytes() {
        if ins {
            if esc {
                esc = false;
            } else if b == b'\\' {
                esc = true;
            } else if b == b'"' {
                ins = false;
            }
            continue;
        }
        match b {
            b'"' => ins = true,
            b'[' | b'{' => {
                d += 1;
                max = max.max(d);
            }
            b']' | b'}' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    max
}

/// What a document made from this value holds: numbers rounded, None if a limit is exceeded.
pub fn stored(v: &Val) -> Option<Val> {
    fn go(v: &Val, depth: usize) -> Option<Val> {
        Some(match v {
            Val::Num(d) => match d.stored() {
                crate::dec::Stored::Value(d) => Val::Num(d),
                crate::dec::Stored::Overflow => return None,
            },
            Val::Str(t) if t.len() > 268_435_455 => return None,
            Val::Arr(a) => {
                if depth >= 100 || a.len() > 65535 {
                    return None;
                }
                Val::Arr(a.iter().map(|x| go(x, depth + 1)).collect::<Option<Vec<_>>>()?)
            }
            Val::Obj(m) => {
                if depth >= 100 || m.len() > 65535 {
                    return None;
                }
                let mut r = Vec::with_capacity(m.len());
                for (k, x) in m {
                    if k.len() > 65535 {
                        return None;
                    }
                    r.push((k.clone(), go(x, depth + 1)?));
                }
                Val::Obj(r)
            }
            v => v.clone(),
        })
    }
    go(v, 0)
}

// ---- generator of spellings ---------------------------------------------------------------------

pub struct Style {
    /// 0 none, 1 some, 2 a lot of whitespace
    pub ws: u64,
    pub dup: bool,
    pub escapes: bool,
}

pub fn gen_style(s: &mut Src) -> Style {
    Style { ws: s.raw(2), dup: s.chance(1, 3), escapes: s.chance(2, 3) }
}

fn ws(s: &mut Src, st: &Style, o: &mut String) {
    if st.ws == 0 || (st.ws == 1 && !s.chance(1, 5)) {
        return;
    }
    let n = s.below(3);
    for _ in 0..n {
        o.push(*s.pick(&[' ', '\n', '\t', '\r']));
    }
}

fn u4(o: &mut String, v: u32, upper: bool) {
    if upper {
        o.push_str(&format!("\\u{:04X}", v));
    } else {
        o.push_str(&format!("\\u{:04x}", v));
    }
}

pub fn spell_string(s: &mut Src, st: &Style, t: &str, o: &mut String) {
    o.push('"');
    let long = t.len() > 200;
    let mut k = 0u32;
    for c in t.chars() {
        k += 1;
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        let how = if !st.escapes {
            0
        } else if long {
            u64::from(k % 37 == 0) * 2
        } else {
            s.weighted(&[70, 15, 8, 7]) as u64
        };
        match (how, short, must) {
            (0, Some(e), true) | (1, Some(e), _) => {
                o.push('\\');
                o.push(e);
            }
            (0, None, false) | (0, Some(_), false) | (1, None, false) => o.push(c),
            _ => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    u4(o, *u as u32, how == 3);
                }
            }
        }
    }
    o.push('"');
}

/// One JSON text that denotes `v`; numbers of `v` may be of any exact size.
pub fn spell_text(s: &mut Src, st: &Style, v: &Val) -> String {
    let mut o = String::new();
    ws(s, st, &mut o);
    spell_to(s, st, v, &mut o, false);
    ws(s, st, &mut o);
    o
}

fn spell_to(s: &mut Src, st: &Style, v: &Val, o: &mut String, plain: bool) {
    match v {
        Val::Null => o.push_str("null"),
        Val::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Val::Num(d) => {
            if plain {
                o.push_str(&d.text())
            } else {
                let t = spell(s, d);
                o.push_str(&t)
            }
        }
        Val::Str(t) => {
            if plain {
                quote(t, o)
            } else {
                spell_string(s, st, t, o)
            }
        }
        Val::Arr(a) => {
            let plain = plain || a.len() > 60;
            o.push('[');
            ws(s, st, o);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    if !plain {
                        ws(s, st, o);
                    }
                }
                spell_to(s, st, x, o, plain);
                if !plain {
                    ws(s, st, o);
                }
            }
            o.push(']');
        }
        Val::Obj(m) => {
            let plain = plain || m.len() > 60;
            o.push('{');
            ws(s, st, o);
            let mut first = true;
            // earlier duplicates, later overwritten
            if st.dup && !m.is_empty() && s.chance(1, 2) {
                let n = 1 + s.small(2);
                for _ in 0..n {
                    let k = m[s.below(m.len())].0.clone();
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    spell_string(s, st, &k, o);
                    o.push(':');
                    match s.raw(3) {
                        0 => o.push_str("null"),
                        1 => o.push_str("[1,{\"x\":\"y\"}]"),
                        2 => o.push_str("\"old\""),
                        _ => o.push_str("-17"),
                    }
                }
            }
            for (k, x) in m {
                if !first {
                    o.push(',');
                    if !plain {
                        ws(s, st, o);
                    }
                }
                first = false;
                if plain {
                    quote(k, o);
                } else {
                    spell_string(s, st, k, o);
                    ws(s, st, o);
                }
                o.push(':');
                if !plain {
                    ws(s, st, o);
                }
                spell_to(s, st, x, o, plain);
                if !plain {
                    ws(s, st, o);
                }
            }
            o.push('}');
        }
    }
}
