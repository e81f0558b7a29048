//! Reference path language: syntax tree, independent recogniser, renderer, evaluator, generator.
use crate::engine::Src;
use crate::model::{key_cmp, Ty, Val};

#[derive(Clone, Debug, PartialEq)]
pub enum Ix {
    At(u64),
    Last(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    One(Ix),
    Range(Ix, Ix),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Func {
    Count,
    Size,
    Type,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Key(String),
    AnyKey,
    Sub(Vec<Cell>),
    AnyElem,
    Desc(String),
    Func(Func),
}

// ---- recogniser ------------------------------------------------------------------------------

fn is_ws(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\x0c' | b'\r')
}

struct Rd<'a> {
    t: &'a str,
    b: &'a [u8],
    i: usize,
}
impl Rd<'_> {
    fn at(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while self.at().map_or(false, is_ws) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.at() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self, w: &str) -> bool {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn digits(&mut self) -> Option<u64> {
        let st = self.i;
        let mut v = 0u64;
        while let Some(c @ b'0'..=b'9') = self.at() {
            v = (v * 10 + (c - b'0') as u64).min(1 << 40);
            self.i += 1;
        }
        if self.i == st || v > 2147483647 {
            None
        } else {
            Some(v)
        }
    }
    fn ix(&mut self) -> Option<Ix> {
        if self.word("last") {
            let back = self.i;
            self.ws();
            if self.eat(b'-') {
                self.ws();
                return self.digits().map(Ix::Last);
            }
            self.i = back;
            return Some(Ix::Last(0));
        }
        self.digits().map(Ix::At)
    }
    fn subscript(&mut self) -> Option<Step> {
        self.ws();
        if self.eat(b'*') {
            self.ws();
            return if self.eat(b']') { Some(Step::AnyElem) } else { None };
        }
        let mut cells = Vec::new();
        loop {
            self.ws();
            let a = self.ix()?;
            self.ws();
            if self.word("to") {
                self.ws();
                let b = self.ix()?;
                self.ws();
                cells.push(Cell::Range(a, b));
            } else {
                cells.push(Cell::One(a));
            }
            if self.eat(b',') {
                continue;
            }
            return if self.eat(b']') { Some(Step::Sub(cells)) } else { None };
        }
    }
    fn name(&mut self) -> Option<String> {
        let st = self.i;
        if !self.at()?.is_ascii_alphabetic() {
            return None;
        }
        while self.at().map_or(false, |c| c.is_ascii_alphanumeric()) {
            self.i += 1;
        }
        Some(self.t[st..self.i].to_string())
    }
    fn quoted(&mut self) -> Option<String> {
        let st = self.i;
        loop {
            match self.at()? {
                b'"' => {
                    let k = self.t[st..self.i].to_string();
                    self.i += 1;
                    return Some(k);
                }
                b'\\' => {
                    if !matches!(*self.b.get(self.i + 1)?, b'b' | b'f' | b'n' | b'r' | b't' | b'"' | b'/' | b'\\') {
                        return None;
                    }
                    self.i += 2;
                }
                _ => self.i += 1,
            }
        }
    }
    fn path(&mut self) -> Option<Vec<Step>> {
        while self.eat(b' ') {}
        if !self.eat(b'$') {
            return None;
        }
        while self.eat(b' ') {}
        let mut steps = Vec::new();
        while self.i < self.b.len() {
            if self.eat(b'[') {
                steps.push(self.subscript()?);
            } else if self.eat(b'.') {
                if self.eat(b'.') {
                    self.ws();
                    let k = if self.eat(b'"') { self.quoted()? } else { self.name()? };
                    steps.push(Step::Desc(k));
                } else {
                    self.ws();
                    if self.eat(b'*') {
                        steps.push(Step::AnyKey);
                    } else if self.eat(b'"') {
                        let k = self.quoted()?;
                        steps.push(Step::Key(k));
                    } else {
                        let k = self.name()?;
                        self.ws();
                        match self.at() {
                            None | Some(b'.') | Some(b'[') => steps.push(Step::Key(k)),
                            Some(b'(') => {
                                self.i += 1;
                                self.ws();
                                if !self.eat(b')') {
                                    return None;
                                }
                                self.ws();
                                if self.i != self.b.len() {
                                    return None;
                                }
                                steps.push(Step::Func(match k.as_str() {
                                    "count" => Func::Count,
                                    "size" => Func::Size,
                                    "type" => Func::Type,
                                    _ => return None,
                                }));
                            }
                            _ => return None,
                        }
                    }
                }
            } else {
                return None;
            }
            self.ws();
        }
        Some(steps)
    }
}

/// The steps a path text denotes; None if it is not well formed.
pub fn recognise(t: &str) -> Option<Vec<Step>> {
    Rd { t, b: t.as_bytes(), i: 0 }.path()
}

// ---- rendering -------------------------------------------------------------------------------

fn plain(k: &str) -> bool {
    let b = k.as_bytes();
    !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric())
}
/// whether a key can be written between quotes as it is
pub fn quotable(k: &str) -> bool {
    let b = k.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => return false,
            b'\\' => {
                if i + 1 >= b.len() || !matches!(b[i + 1], b'b' | b'f' | b'n' | b'r' | b't' | b'"' | b'/' | b'\\') {
                    return false;
                }
                i += 2;
            }
            _ => i += 1,
        }
    }
    true
}

fn gap(s: &mut Src, on: bool, o: &mut String) {
    if on && s.chance(1, 3) {
        let n = 1 + s.small(2);
        for _ in 0..n {
            o.push(*s.pick(&[' ', '\t', '\n', '\r', '\u{c}']));
        }
    }
}

fn put_key(s: &mut Src, k: &str, o: &mut String) {
    if plain(k) && !s.chance(1, 4) {
        o.push_str(k);
    } else {
        o.push('"');
        o.push_str(k);
        o.push('"');
    }
}

fn put_num(s: &mut Src, v: u64, o: &mut String) {
    if s.chance(1, 12) {
        let z = 1 + s.small(4);
        for _ in 0..z {
            o.push('0');
        }
    }
    o.push_str(&v.to_string());
}

fn put_ix(s: &mut Src, w: bool, i: &Ix, o: &mut String) {
    match i {
        Ix::At(v) => put_num(s, *v, o),
        Ix::Last(m) => {
            o.push_str("last");
            if *m > 0 || s.chance(1, 4) {
                gap(s, w, o);
                o.push('-');
                gap(s, w, o);
                put_num(s, *m, o);
            }
        }
    }
}

/// One spelling of the path; `w` allows whitespace between tokens.
pub fn render(s: &mut Src, steps: &[Step], w: bool) -> String {
    let mut o = String::new();
    if w && s.chance(1, 4) {
        o.push_str(*s.pick(&[" ", "  "]));
    }
    o.push('$');
    if w && s.chance(1, 4) {
        o.push_str(*s.pick(&[" ", "  "]));
    }
    for st in steps {
        match st {
            Step::Key(k) => {
                o.push('.');
                gap(s, w, &mut o);
                put_key(s, k, &mut o);
            }
            Step::AnyKey => {
                o.push('.');
                gap(s, w, &mut o);
                o.push('*');
            }
            Step::Desc(k) => {
                o.push_str("..");
                gap(s, w, &mut o);
                put_key(s, k, &mut o);
            }
            Step::AnyElem => {
                o.push('[');
                gap(s, w, &mut o);
                o.push('*');
                gap(s, w, &mut o);
                o.push(']');
            }
            Step::Sub(cells) => {
                o.push('[');
                let many = cells.len() > 30;
                for (i, c) in cells.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if many {
                        match c {
                            Cell::One(Ix::At(v)) => o.push_str(&v.to_string()),
                            _ => o.push_str("last"),
                        }
                        continue;
                    }
                    gap(s, w, &mut o);
                    match c {
                        Cell::One(a) => put_ix(s, w, a, &mut o),
                        Cell::Range(a, b) => {
                            put_ix(s, w, a, &mut o);
                            if s.chance(1, 8) {
                                o.push_str("to");
                            } else {
                                o.push(' ');
                                gap(s, w, &mut o);
                                o.push_str("to");
                                o.push(' ');
                            }
                            gap(s, w, &mut o);
                            put_ix(s, w, b, &mut o);
                        }
                    }
                    gap(s, w, &mut o);
                }
                o.push(']');
            }
            Step::Func(f) => {
                o.push('.');
                gap(s, w, &mut o);
                o.push_str(match f {
                    Func::Count => "count",
                    Func::Size => "size",
                    Func::Type => "type",
                });
                gap(s, w, &mut o);
                o.push('(');
                gap(s, w, &mut o);
                o.push(')');
            }
        }
        gap(s, w, &mut o);
    }
    o
}

// ---- evaluation ------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Item<'a> {
    Ref(&'a Val),
    Num(usize),
    Name(&'static str),
}

pub struct TooBig;

struct Ev {
    budget: usize,
}

impl Ev {
    fn pay(&mut self, n: usize) -> Result<(), TooBig> {
        if self.budget < n {
            return Err(TooBig);
        }
        self.budget -= n;
        Ok(())
    }
    fn step<'a>(&mut self, v: &'a Val, st: &Step, out: &mut Vec<&'a Val>) -> Result<(), TooBig> {
        self.pay(1)?;
        match st {
            Step::Key(k) => match v {
                Val::Obj(m) => out.extend(m.iter().find(|x| &x.0 == k).map(|x| &x.1)),
                Val::Arr(a) => {
                    for x in a {
                        self.step(x, st, out)?;
                    }
                }
                _ => {}
            },
            Step::AnyKey => match v {
                Val::Obj(m) => {
                    self.pay(m.len())?;
                    out.extend(in_order(m));
                }
                Val::Arr(a) => {
                    for x in a {
                        self.step(x, st, out)?;
                    }
                }
                _ => {}
            },
            Step::AnyElem => match v {
                Val::Arr(a) => {
                    self.pay(a.len())?;
                    out.extend(a.iter());
                }
                v => out.push(v),
            },
            Step::Sub(cells) => match v {
                Val::Arr(a) => {
                    for c in cells {
                        for p in positions(c, a.len()) {
                            self.pay(1)?;
                            out.push(&a[p]);
                        }
                    }
                }
                v => {
                    if cells.iter().any(|c| positions(c, 1).next().is_some()) {
                        out.push(v);
                    }
                }
            },
            Step::Desc(k) => match v {
                Val::Obj(m) => {
                    out.extend(m.iter().find(|x| &x.0 == k).map(|x| &x.1));
                    for x in in_order(m) {
                        self.step(x, st, out)?;
                    }
                }
                Val::Arr(a) => {
                    for x in a {
                        self.step(x, st, out)?;
                    }
                }
                _ => {}
            },
            Step::Func(_) => unreachable!(),
        }
        Ok(())
    }
}

fn in_order(m: &[(String, Val)]) -> impl Iterator<Item = &Val> {
    let mut r: Vec<&(String, Val)> = m.iter().collect();
    r.sort_by(|a, b| key_cmp(&a.0, &b.0));
    r.into_iter().map(|x| &x.1)
}

/// positions of an array of length n that a subscript cell denotes
pub fn positions(c: &Cell, n: usize) -> std::ops::Range<usize> {
    let n = n as i64;
    let abs = |i: &Ix| -> i64 {
        match i {
            Ix::At(v) => *v as i64,
            Ix::Last(m) => n - 1 - *m as i64,
        }
    };
    let (lo, hi) = match c {
        Cell::One(i) => {
            let p = abs(i);
            if p < 0 || p >= n {
                return 0..0;
            }
            (p, p)
        }
        Cell::Range(a, b) => {
            let (a, b) = (abs(a), abs(b));
            if a < 0 && b < 0 {
                return 0..0;
            }
            (a.min(b).max(0), a.max(b).min(n - 1))
        }
    };
    if lo > hi {
        0..0
    } else {
        lo as usize..hi as usize + 1
    }
}

/// Everything the path selects, in order.
pub fn eval<'a>(doc: &'a Val, steps: &[Step], budget: usize) -> Result<Vec<Item<'a>>, TooBig> {
    eval_counted(doc, steps, budget).map(|x| x.0)
}

/// and how many values were visited for it
pub fn eval_counted<'a>(doc: &'a Val, steps: &[Step], budget: usize) -> Result<(Vec<Item<'a>>, usize), TooBig> {
    let mut ev = Ev { budget };
    let r = eval_all(doc, steps, &mut ev)?;
    Ok((r, budget - ev.budget))
}

fn eval_all<'a>(doc: &'a Val, steps: &[Step], ev: &mut Ev) -> Result<Vec<Item<'a>>, TooBig> {
    let mut cur: Vec<&Val> = vec![doc];
    for st in steps {
        if let Step::Func(f) = st {
            return Ok(match f {
                Func::Count => vec![Item::Num(cur.len())],
                Func::Size => cur.iter().map(|v| Item::Num(if let Val::Arr(a) = v { a.len() } else { 1 })).collect(),
                Func::Type => cur.iter().map(|v| Item::Name(v.ty().name())).collect(),
            });
        }
        let mut next = Vec::new();
        for v in &cur {
            ev.step(v, st, &mut next)?;
        }
        cur = next;
    }
    Ok(cur.into_iter().map(Item::Ref).collect())
}

/// Work a straightforward evaluation does: visits, including partial matches that lead nowhere.
pub fn has_func(steps: &[Step]) -> bool {
    matches!(steps.last(), Some(Step::Func(_)))
}

// ---- generation ------------------------------------------------------------------------------

fn gen_ix(s: &mut Src, n: usize) -> Ix {
    let v = match s.weighted(&[58, 24, 9, 4, 5]) {
        0 => s.below(n.max(1) + 1) as u64,
        1 => s.below(4) as u64,
        2 => (n as u64 + s.raw(2)).saturating_sub(1),
        // in range again where only the low bits are looked at
        4 => ((1u64 << (5 + s.raw(26))) + s.below(n + 2) as u64 - 1).min(i32::MAX as u64),
        _ => *s.pick(&[65535u64, 65536, 2147483647, 2147483646, 4294967, 255, 256, 127, 100]),
    };
    if s.chance(2, 5) {
        Ix::Last(v)
    } else {
        Ix::At(v)
    }
}
pub fn gen_cell(s: &mut Src, n: usize) -> Cell {
    if s.chance(2, 5) {
        Cell::Range(gen_ix(s, n), gen_ix(s, n))
    } else {
        Cell::One(gen_ix(s, n))
    }
}
pub fn gen_sub(s: &mut Src, n: usize) -> Step {
    let k = match s.weighted(&[60, 30, 10]) {
        0 => 1,
        1 => 2 + s.below(2),
        _ => 1 + s.below(8),
    };
    Step::Sub((0..k).map(|_| gen_cell(s, n)).collect())
}

/// keys occurring anywhere below, up to a limit
fn keys_below(v: &Val, out: &mut Vec<String>) {
    v.walk(&mut |x| {
        if let Val::Obj(m) = x {
            for (k, _) in m {
                if out.len() < 40 && !out.contains(k) {
                    out.push(k.clone());
                }
            }
        }
    });
}

fn any_key(s: &mut Src) -> String {
    let k = crate::gen::gen_key(s, 10);
    if quotable(&k) {
        k
    } else {
        "nope".into()
    }
}
fn doc_key(s: &mut Src, ks: &[String]) -> String {
    if ks.is_empty() || s.chance(1, 10) {
        return any_key(s);
    }
    let k = &ks[s.below(ks.len())];
    if quotable(k) {
        k.clone()
    } else {
        any_key(s)
    }
}

/// A path that mostly follows the document, so that selections are rarely empty.
pub fn gen_steps(s: &mut Src, doc: &Val, func: bool) -> Vec<Step> {
    let n = match s.weighted(&[70, 25, 5]) {
        0 => s.below(4),
        1 => 2 + s.below(4),
        _ => s.small(12),
    };
    let mut cur: Vec<&Val> = vec![doc];
    let mut steps: Vec<Step> = Vec::new();
    let mut all_keys = Vec::new();
    keys_below(doc, &mut all_keys);
    for _ in 0..n {
        let arr = cur.iter().find_map(|v| if let Val::Arr(a) = v { Some(a.len()) } else { None });
        let obj = cur.iter().any(|v| matches!(v, Val::Obj(_)));
        // what fits the current selection first, anything at all sometimes
        let w: [u32; 5] = match (arr.is_some(), obj) {
            (true, true) => [20, 10, 30, 12, 15],
            (true, false) => [12, 6, 45, 15, 12],
            (false, true) => [45, 15, 8, 5, 15],
            (false, false) => [5, 3, 10, 5, 5],
        };
        let st = match s.weighted(&w) {
            0 => {
                let mut ks = Vec::new();
                fn level(v: &Val, ks: &mut Vec<String>, d: usize) {
                    match v {
                        Val::Obj(m) => {
                            for (k, _) in m.iter().take(30) {
                                if !ks.contains(k) {
                                    ks.push(k.clone());
                                }
                            }
                        }
                        Val::Arr(a) if d < 4 => a.iter().take(10).for_each(|x| level(x, ks, d + 1)),
                        _ => {}
                    }
                }
                for v in cur.iter().take(10) {
                    level(v, &mut ks, 0);
                }
                Step::Key(doc_key(s, &ks))
            }
            1 => Step::AnyKey,
            2 => gen_sub(s, arr.unwrap_or(1)),
            3 => Step::AnyElem,
            _ => Step::Desc(doc_key(s, &all_keys)),
        };
        let mut next: Vec<&Val> = Vec::new();
        let mut ev = Ev { budget: 20_000 };
        for v in &cur {
            if ev.step(v, &st, &mut next).is_err() {
                break;
            }
        }
        steps.push(st);
        next.truncate(200);
        cur = next;
    }
    if func && s.chance(1, 4) {
        steps.push(Step::Func(*s.pick(&[Func::Count, Func::Size, Func::Type])));
    }
    steps
}

/// Text near the path language.
pub fn gen_text(s: &mut Src) -> String {
    const TOK: [&str; 44] = [
        "$", ".", "..", "[", "]", "*", "last", "to", "-", ",", "0", "1", "12", "2147483647", "2147483648", "007", "\"", "\\", "\\\"",
        "\\n", "\\u", "a", "key", "size", "type", "count", "(", ")", "()", " ", "\t", "\n", "\u{b}", "\u{c}", "\u{a0}", "é", "_", "+",
        "\"k\"", "[0]", "[last]", ".a", "size()", "99999999999999999999999",
    ];
    let n = s.small(14);
    let mut o = String::new();
    if s.chance(9, 10) {
        o.push('$');
    }
    for _ in 0..n {
        if s.chance(1, 15) {
            o.push(crate::gen::gen_char(s));
        } else {
            o.push_str(s.pick(&TOK));
        }
    }
    o
}

/// One random edit of a text.
pub fn mutate_text(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = 1 + s.below(2);
    for _ in 0..n {
        if c.is_empty() {
            c.push(crate::gen::gen_char(s));
            continue;
        }
        let i = s.below(c.len());
        match s.raw(5) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *s.pick(&[' ', '.', '[', ']', '"', '\\', '*', '$', '0', 'a', ',', '-', '(', ')', '\t', '\u{b}', 't', 'l'])),
            2 => c[i] = *s.pick(&[' ', '.', '[', ']', '"', '\\', '*', '$', '0', 'a', ',', '-', '(', ')', '\n', 'é']),
            3 => c.truncate(i),
            4 => {
                let j = s.below(c.len());
                c.swap(i, j);
            }
            _ => {
                let x = c[i];
                c.insert(i, x);
            }
        }
    }
    c.into_iter().collect()
}

pub fn type_name(t: Ty) -> &'static str {
    t.name()
}
