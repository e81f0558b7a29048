//! C24: no operation leaves the memory it was given.
use super::*;
use crate::dirty;
use crate::drive::*;
use yvbase::engine::clip;
use yvbase::run::*;

/// One case of another property in fenced memory. What that property asks is its own affair: here
/// only the memory counts (and that nothing panics).
fn fenced(s: &mut Src, f: CaseFn) -> R {
    let front = s.chance(1, 4);
    let (r, n, memory) = dirty::fenced(front, || f(s));
    memory?;
    s.label(if front { "begins at an inaccessible page" } else { "ends at an inaccessible page" });
    s.label_if(n > 1000, "over 1000 pieces of memory");
    s.note(|| format!("{} pieces of memory", n));
    if let Err(e) = r {
        s.note(|| format!("(another property: {})", clip(&e, 200)));
    }
    Ok(())
}

/// a sub-check of another property
fn sub(p: &'static Prop, name: &str) -> CaseFn {
    p.subs.iter().find(|x| x.name == name).expect("sub-check").f
}

macro_rules! area {
    ($f:ident: $($p:path => $n:literal),+) => {
        fn $f(s: &mut Src) -> R {
            let all: &[(&'static Prop, &'static str)] = &[$((&$p, $n)),+];
            let (p, n) = all[s.below(all.len())];
            s.label(n);
            fenced(s, sub(p, n))
        }
    };
}
area!(building: build::C01 => "read-back", build::C02 => "built", build::C02 => "derived", misuse::C15 => "histories", build::C03 => "sorted-modes");
area!(parsing: json::C04 => "texts", json::C05 => "numbers", accept::C20 => "texts", accept::C20 => "nesting", build::C02 => "parsed");
area!(reading: access::C09 => "keys", access::C10 => "typed", extract::C18 => "walks", access::C08 => "pairs", access::C08 => "one-difference");
area!(querying: path::C11 => "select", path::C12 => "random-cells", path::C13 => "modes", extract::C18 => "queried");
area!(path_texts: path::C14 => "well-formed", path::C14 => "edited", path::C14 => "soup", path::C14 => "long");
area!(writing: text::C06 => "formats", text::C06 => "results", text::C07 => "layout", text::C07 => "failing-sink", serial::C17 => "readable", serial::C17 => "binary", serial::C17 => "inputs");

/// takes only texts, as every writer may expect
#[derive(Default)]
struct Strict {
    held: String,
    pieces: usize,
    broken: Option<String>,
}
impl std::fmt::Write for Strict {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        let b = std::hint::black_box(t.as_bytes());
        self.pieces += 1;
        match std::str::from_utf8(b) {
            Ok(t) => self.held.push_str(t),
            Err(e) => {
                let i = e.valid_up_to();
                self.broken.get_or_insert(format!("piece {} of {} bytes breaks off inside a character, at byte {}", self.pieces, b.len(), i));
            }
        }
        Ok(())
    }
}

/// texts of characters of one to four bytes, long ones above all, as a writer, a reader of pieces and
/// a formatter get them
fn texts(s: &mut Src) -> R {
    use std::fmt::Write;
    const UNITS: [&str; 12] = ["\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{e9}", "ab\u{20ac}", "\u{1f600}x", "\u{7ff}\u{800}", "\"\u{20ac}", "/\u{1f600}", "\n\u{e9}a", "xyz", "\u{10ffff}\u{1}"];
    let mut ts = Vec::new();
    for _ in 0..1 + s.raw(2) {
        let mut t = "a".repeat(s.raw(5) as usize);
        let u = *s.pick(&UNITS);
        let n = s.wide(100_000);
        if s.chance(1, 3) {
            // mostly plain, with something longer at one place
            t.push_str(&"p".repeat(n));
            t.push_str(u);
            let k = s.small(200);
            t.push_str(&"q".repeat(k));
        } else {
            t.push_str(&u.repeat(n / u.len()));
        }
        ts.push(t);
    }
    let long = ts.iter().map(|t| t.len()).max().unwrap_or(0);
    s.label_if(long > 4096, "a text over 4096 bytes");
    s.label_if(ts.iter().any(|t| !t.is_ascii()), "characters of several bytes");
    let v = if ts.len() == 1 && s.chance(1, 2) {
        Val::Str(ts.remove(0))
    } else if s.chance(1, 2) {
        Val::Arr(ts.into_iter().map(Val::Str).collect())
    } else {
        let mut i = 0;
        Val::Obj(
            ts.into_iter()
                .map(|t| {
                    i += 1;
                    let mut e = t.len().min(40_000);
                    while !t.is_char_boundary(e) {
                        e -= 1;
                    }
                    (format!("{}{}", i, &t[..e]), Val::Str(t))
                })
                .collect(),
        )
    };
    s.count(v.hash());
    let route = s.raw(3);
    let pretty = s.chance(1, 2);
    s.note(|| format!("{} {} {}", brief(&v), route, pretty));
    let mut w = Strict::default();
    let d = build(s, &v)?;
    let y = d.yason();
    let ((), _, memory) = dirty::fenced(false, || {
        let _ = match route {
            0 => y.format_to(pretty, &mut w).map_err(|_| ()),
            1 => write!(w, "{}", y.format(pretty)).map_err(|_| ()),
            2 => write!(w, "{:>12}|{:.3}", y.format(pretty), y.format(!pretty)).map_err(|_| ()),
            _ => match std::str::FromStr::from_str("$.*") as Result<yason::PathExpression, _> {
                Ok(p) => p.query(y, true, None, None).map(|q| drop(q.format_to(pretty, &mut w))).map_err(|_| ()),
                Err(_) => Err(()),
            },
        };
    });
    memory?;
    match w.broken {
        Some(e) => Err(format!("a writer is handed what is not a text: {}", e)),
        None => Ok(()),
    }
}

// ---- the interpreter

#[path = "../../mi/src/script.rs"]
mod script;

/// A script for ../../mi/src/script.rs
struct Script {
    b: Vec<u8>,
    shown: String,
}
impl Script {
    fn tok(&mut self, t: &str) {
        self.b.extend_from_slice(&(t.len() as u32).to_le_bytes());
        self.b.extend_from_slice(t.as_bytes());
        self.shown.push_str(&clip(&format!("{:?}", t), 60));
        self.shown.push(' ');
    }
    fn op(&mut self, t: &str) {
        self.shown.push('\n');
        self.tok(t);
    }
    fn int(&mut self, n: i64) {
        self.tok(&n.to_string());
    }
    fn marked(&mut self, mark: char, t: &str) {
        let mut x = String::from(mark);
        x.push_str(t);
        self.tok(&x);
    }
}

fn count_of(s: &mut Src, n: usize, odd: bool) -> usize {
    if odd && s.chance(1, 8) {
        s.label("wrong count");
        (n + s.below(3)).saturating_sub(1)
    } else {
        n
    }
}
fn end(s: &mut Src, o: &mut Script, e: &str, odd: bool) {
    if odd && s.chance(1, 12) {
        s.label("a container left unfinished");
        o.tok("!");
    } else {
        o.tok(e);
    }
}
fn plan_tokens(s: &mut Src, p: &Plan, o: &mut Script, odd: bool) {
    match p {
        Plan::Null => o.tok("n"),
        Plan::Bool(b) => o.tok(if *b { "b1" } else { "b0" }),
        Plan::Num(t) => o.marked('#', t),
        Plan::Str(t) => o.marked('s', t),
        Plan::Arr(a) => {
            let n = count_of(s, a.len(), odd);
            o.tok(&format!("[{}", n));
            for x in a {
                plan_tokens(s, x, o, odd);
            }
            end(s, o, "]", odd);
        }
        Plan::Obj(sorted, m) => {
            let n = count_of(s, m.len(), odd);
            let sorted = *sorted || (odd && !is_debug() && s.chance(1, 8));
            o.tok(&format!("{{{}{}", sorted as u8, n));
            for (k, x) in m {
                o.marked('k', k);
                plan_tokens(s, x, o, odd);
            }
            end(s, o, "}", odd);
        }
    }
}
fn held(s: &mut Src, o: &mut Script) {
    if s.chance(1, 2) {
        o.int(0);
        o.int(-1);
    } else {
        o.int(s.small(20) as i64);
        // exactly nothing to spare, a little, or plenty
        o.int(match s.raw(2) {
            0 => 0,
            1 => s.small(60) as i64,
            _ => s.small(2000) as i64,
        });
    }
}

fn pieces(b: &[u8]) -> Vec<(u8, &[u8])> {
    let mut r = Vec::new();
    let mut i = 0;
    while i + 5 <= b.len() {
        let n = u32::from_le_bytes(b[i + 1..i + 5].try_into().unwrap()) as usize;
        let e = (i + 5 + n).min(b.len());
        r.push((b[i], &b[i + 5..e]));
        i = e;
    }
    r
}

/// the interpreter: how it is started; set by check.sh
fn interpreter() -> Option<(String, String)> {
    Some((std::env::var("YV_MIRI_RUNNER").ok()?, std::env::var("YV_MIRI_BIN").ok()?))
}

fn interpreted(s: &mut Src) -> R {
    use yvbase::path::{gen_steps, gen_text, mutate_text, render};
    let mut o = Script { b: Vec::new(), shown: String::new() };
    let c = gen::Cfg { nodes: 14, bytes: 220, max_count: 12, max_str: 150, max_key: 40, max_depth: 8 };
    let mut docs = Vec::new();
    for _ in 0..1 + s.raw(1) {
        let v = if s.chance(1, 3) { path::path_doc(s) } else { gen::gen_val(s, &c) };
        let v = if v.depth() > 12 || !v.fits() { Val::Null } else { v };
        let mut size = 0;
        v.walk(&mut |_| size += 1);
        if size > 60 {
            continue;
        }
        s.count(v.hash());
        match s.raw(4) {
            0 => {
                let st = yvbase::json::gen_style(s);
                let t = yvbase::json::spell_text(s, &st, &v);
                s.label("parsed");
                o.op("j");
                held(s, &mut o);
                o.tok(&t);
            }
            1 => {
                s.label("built with mistakes");
                let p = plan(s, &v);
                o.op("b");
                held(s, &mut o);
                plan_tokens(s, &p, &mut o, true);
            }
            _ => {
                s.label("built");
                let p = plan(s, &v);
                o.op("b");
                held(s, &mut o);
                plan_tokens(s, &p, &mut o, false);
            }
        }
        docs.push(v);
    }
    if s.chance(1, 5) {
        let t = accept::any_text(s);
        if t.len() < 300 {
            s.label("any text");
            o.op("j");
            held(s, &mut o);
            o.tok(&t);
        }
    }
    for _ in 0..s.raw(2) {
        let t = match (s.raw(4), docs.first()) {
            (0, _) => gen_text(s),
            (n, Some(v)) => {
                let steps = gen_steps(s, v, true);
                let ws = s.chance(1, 3);
                let t = render(s, &steps, ws);
                if n == 1 {
                    mutate_text(s, &t)
                } else {
                    t
                }
            }
            _ => "$.*".into(),
        };
        if t.len() < 200 {
            s.label("path");
            o.op("p");
            o.tok(&t);
        }
    }
    for _ in 0..2 + s.raw(4) {
        let d = s.raw(2) as i64;
        match s.raw(if is_debug() { 9 } else { 10 }) {
            0 | 1 => {
                o.op("r");
                o.int(d);
                o.int(s.raw(1 << 30) as i64);
            }
            2 | 3 | 4 => {
                o.op("q");
                o.int(d);
                o.int(s.raw(1) as i64);
                o.int(s.raw(6) as i64);
            }
            5 | 6 => {
                o.op("f");
                o.int(d);
                o.int(if s.chance(1, 2) { 1 << 40 } else { s.small(80) as i64 });
            }
            7 => {
                o.op("e");
                o.int(d);
                o.int(s.raw(2) as i64);
            }
            8 => {
                o.op("c");
                o.int(d);
                o.int(s.raw(2) as i64);
            }
            9 => {
                o.op("s");
                o.int(d);
            }
            _ => {
                s.label("only the first bytes of a document");
                o.op("x");
                o.int(d);
                o.int(s.small(300) as i64);
            }
        }
    }
    let shown = std::mem::take(&mut o.shown);
    s.note(move || format!("script:{}", clip(&shown, 3000)));
    // what corrupts memory ends here, before it harms the harness
    let (native, _, memory) = dirty::fenced(s.chance(1, 4), || script::run(&o.b));
    memory?;
    for (mark, b) in pieces(&native) {
        if mark == script::TEXT && std::str::from_utf8(b).is_err() {
            return Err(format!("a text is handed out that is not UTF-8: {:?}", b));
        }
    }
    let Some((runner, bin)) = interpreter() else {
        s.label("no interpreter here");
        return Ok(());
    };
    let file = std::env::temp_dir().join(format!("yv-script-{}", std::process::id()));
    std::fs::write(&file, &o.b).map_err(|e| format!("harness: {}", e))?;
    let out = std::process::Command::new("timeout")
        .args(["60", &runner, "runner", &bin])
        .arg(&file)
        .stdin(std::process::Stdio::null())
        .output();
    let _ = std::fs::remove_file(&file);
    let out = out.map_err(|e| format!("harness: {}", e))?;
    let err = String::from_utf8_lossy(&out.stderr);
    if out.status.success() {
        s.label("interpreted");
        if out.stdout != native {
            let (x, y) = (pieces(&native), pieces(&out.stdout));
            let i = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
            let line = x[..i.min(x.len())].iter().filter(|p| p.0 == script::LINE).count();
            return Err(format!("call {} answers differently when it is interpreted: {:?} and {:?}", line, x.get(i), y.get(i)));
        }
        return Ok(());
    }
    if let Some(i) = err.find("Undefined Behavior") {
        let at: Vec<&str> = err[i..].lines().map(|l| l.trim()).filter(|l| l.starts_with("-->") || l.starts_with("at /") || l.starts_with("at src")).take(4).collect();
        return Err(format!("{} ({})", clip(err[i..].lines().next().unwrap_or(""), 400), at.join("; ")));
    }
    if err.contains("panicked at") && !err.contains("unsupported operation") {
        return Err(format!("panics when it is interpreted: {}", clip(&err[err.find("panicked at").unwrap_or(0)..], 300)));
    }
    s.label("not decided by the interpreter");
    Ok(())
}

pub static C24: Prop = Prop {
    id: "C24",
    rule: "a case counts when its document holds at least two values or a non-empty string or a non-zero number; distinct by content",
    subs: &[
        Sub { name: "interpreted", f: interpreted, mode: Mode::Random, quick: 440, thorough: 24_000, profiles: BOTH },
        Sub { name: "building", f: building, mode: Mode::Random, quick: 12_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "parsing", f: parsing, mode: Mode::Random, quick: 12_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "reading", f: reading, mode: Mode::Random, quick: 12_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "querying", f: querying, mode: Mode::Random, quick: 12_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "path-texts", f: path_texts, mode: Mode::Random, quick: 12_000, thorough: 1_000_000, profiles: BOTH },
        Sub { name: "texts", f: texts, mode: Mode::Random, quick: 6_000, thorough: 300_000, profiles: BOTH },
        Sub { name: "writing", f: writing, mode: Mode::Random, quick: 12_000, thorough: 1_000_000, profiles: BOTH },
    ],
    assumptions: &[
        "the interpreter is run without a model of aliasing (Stacked or Tree Borrows are not part of the language yet), and on small cases only; alignment, bounds, lifetimes, unwritten memory and invalid values are judged",
        "in fenced memory a write past the end is seen at once, one before the beginning when the piece is given back, and the other way round in a quarter of the cases; a read is seen on the side of the inaccessible page only",
        "unchecked constructors and promised key order are given what their contract asks (sorted modes are misused in the optimised profile only, where that is refused or stored)",
    ],
    known: no_known,
};
