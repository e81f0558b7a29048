//! C20: which texts are accepted.
use super::json::{gen_exact, in_domain, parse_all};
use super::*;
use crate::read::content_of;
use yvbase::dec::spell;
use yvbase::engine::{clip, hash_bytes};
use yvbase::json::{self, rough_depth};
use yvbase::run::*;

/// A number whose spelling the decimal library misjudges (see C05), or a digit string so long that
/// looking at it is not worth the time.
pub fn outside_domain(t: &str) -> bool {
    t.split(|c: char| !matches!(c, '0'..='9' | '+' | '-' | '.' | 'e' | 'E')).any(|n| n.len() > 4 && !in_domain(n))
}

fn judge(s: &mut Src, t: &str) -> R {
    s.note(|| format!("text: {}", clip(t, 1200)));
    if outside_domain(t) {
        s.label("left out: number outside the domain of the decimal library");
        return Ok(());
    }
    let deep = rough_depth(t) > 550;
    let p = if deep { None } else { json::parse(t) };
    if p.as_ref().map_or(false, |p| p.marker) {
        return Ok(());
    }
    let want = p.as_ref().and_then(|p| json::stored(&p.val));
    let r = parse_all(t, b"pre")?;
    match (&want, &r) {
        (Some(w), Ok(y)) => {
            s.label("accepted");
            if content_of(y)? != w.canon() {
                return Err("accepted with other content than the text denotes".into());
            }
            Ok(())
        }
        (None, Err(_)) => {
            s.label(if p.is_some() { "refused: a limit is exceeded" } else { "refused: not JSON" });
            Ok(())
        }
        (Some(_), Err(e)) => {
            let p = p.unwrap();
            if p.dropped && p.any_depth > 100 {
                // what a later duplicate replaces may be judged too
                return Ok(());
            }
            Err(format!("a valid text is refused: {}", e))
        }
        (None, Ok(y)) => Err(format!(
            "a text that {} is accepted as {}",
            if p.is_some() { "exceeds a limit" } else { "is not JSON" },
            clip(&y.format(false).to_string(), 300)
        )),
    }
}

const PIECES: [&str; 52] = [
    "[", "]", "{", "}", ",", ":", "\"", "\"\"", "\"a\"", "null", "true", "false", "0", "1", "-", "-0", "1.5", "1e5", " ", "\n", "\t", "\r", "\\", "\\u",
    "\"\\u0041\"", "\"\\ud83d\\ude00\"", "\"\\ud800\"", "\"\\udc00\"", "01", "1.", ".5", "1e", "1e+", "+1", "--1", "nul", "True", "NaN", "Infinity", "'a'",
    "\u{0}", "\u{1f}", "\u{7f}", "\u{a0}", "\u{feff}", "\u{2028}", "//", "/*", "\"\t\"", "\"\\x\"", "é", "\u{1F600}",
];

fn spelled(s: &mut Src) -> String {
    let small = s.chance(4, 5);
    let v = gen::gen_val(s, &if small { gen::Cfg::small() } else { gen::Cfg::normal() });
    let st = json::gen_style(s);
    json::spell_text(s, &st, &v)
}

fn edit(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.small(3) {
        let n = c.len();
        let at = s.below(n + 1);
        match s.raw(6) {
            0 if at < n => {
                c.remove(at);
            }
            1 => {
                let p = *s.pick(&PIECES);
                c.splice(at..at, p.chars());
            }
            2 if at < n => {
                let p = *s.pick(&PIECES);
                c.splice(at..at + 1, p.chars());
            }
            3 if at < n => {
                let x = c[at];
                c.insert(at, x);
            }
            4 if at + 1 < n => c.swap(at, at + 1),
            5 => c.truncate(at),
            _ if at < n => {
                let e = (at + 1 + s.small(20)).min(n);
                let chunk: Vec<char> = c[at..e].to_vec();
                let to = s.below(n + 1);
                c.splice(to..to, chunk);
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}

fn soup(s: &mut Src) -> String {
    let n = 1 + s.small(14);
    (0..n).map(|_| *s.pick(&PIECES)).collect()
}

/// nesting around the limits of the format (100) and of the JSON library (127), and far beyond
pub fn nested(s: &mut Src) -> String {
    let n = match s.weighted(&[70, 13, 13, 4]) {
        0 => s.range(95, 105),
        1 => s.range(124, 132),
        2 => s.range(1, 400),
        _ => *s.pick(&[1_000usize, 10_000, 100_000, 1_000_000]),
    };
    let style = s.raw(3);
    let gap = *s.pick(&["", " ", "\n\t"]);
    let core = match s.raw(5) {
        0 => String::new(),
        1 => "1".into(),
        2 => "\"x\",[]".into(),
        3 => "1e999".into(),
        4 => "{\"a\":[1,2]}".into(),
        _ => "null,null".into(),
    };
    // a wide container on the way
    let (wide_at, wide) = if n < 2000 && s.chance(1, 5) { (n - 1 - s.small(8).min(n - 1), 1 + s.wide(1_000)) } else { (n, 0) };
    let mut o = String::new();
    let mut close = Vec::new();
    for i in 0..n {
        let arr = match style {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => (i * 7 + 3) % 5 < 2,
        };
        if arr {
            o.push('[');
            if i == wide_at {
                o.push_str(&"0,".repeat(wide));
            }
            close.push("]");
        } else {
            o.push('{');
            if i == wide_at {
                for j in 0..wide {
                    o.push_str(&format!("\"{}\":0,", j));
                }
            }
            o.push_str("\"k\":");
            close.push("}");
        }
        if n < 2000 {
            o.push_str(gap);
        }
    }
    let last_arr = close.last() == Some(&"]");
    o.push_str(if core.is_empty() && !last_arr {
        "{}"
    } else if last_arr || !core.contains(',') || core.starts_with('{') {
        &core
    } else {
        "7"
    });
    let shut = match s.weighted(&[80, 10, 10]) {
        0 => n,
        1 => s.below(n + 1),
        _ => n + 1,
    };
    for i in (0..n).rev().take(shut) {
        o.push_str(close[i]);
    }
    if shut > n {
        o.push(']');
    }
    // as a duplicate that is dropped
    if s.chance(1, 12) {
        o = format!("{{\"a\":{},\"a\":1}}", o);
    }
    o
}

fn number_text(s: &mut Src) -> String {
    let d = gen_exact(s);
    let t = spell(s, &d);
    let t = if s.chance(1, 4) { edit(s, &t) } else { t };
    match s.raw(3) {
        0 => t,
        1 => format!("[{}]", t),
        2 => format!("{{\"a\":{},\"a\":2}}", t),
        _ => format!("[1,{{\"b\":{}}}, 2]", t),
    }
}

pub fn limits(s: &mut Src) -> String {
    let n = *s.pick(&[65_534usize, 65_535, 65_536, 65_537, 70_000, 131_071, 131_072]);
    let m = *s.pick(&["k", "é", "😀"]);
    let t = match s.raw(3) {
        0 => format!("{{\"{}\":1}}", m.repeat(n / m.len())),
        1 => {
            let mut k = "x".repeat(n - 6);
            k.push_str("\\u0041");
            format!("{{\"a\":{{\"{}\":[]}}}}", k)
        }
        2 => format!("[{}1]", "1,".repeat(n - 1)),
        _ => {
            let mut o = String::from("{");
            for i in 0..n {
                o.push_str(&format!("\"{}\":0{}", if i == 70 { 3 } else { i }, if i + 1 < n { "," } else { "" }));
            }
            o.push('}');
            o
        }
    };
    t
}

pub fn any_text(s: &mut Src) -> String {
    match s.weighted(&[20, 45, 15, 20]) {
        0 => spelled(s),
        1 => {
            let t = spelled(s);
            edit(s, &t)
        }
        2 => soup(s),
        _ => number_text(s),
    }
}

fn texts(s: &mut Src) -> R {
    let t = any_text(s);
    s.count(hash_bytes(t.as_bytes()));
    judge(s, &t)
}

/// the same with large documents
fn texts_bulk(s: &mut Src) -> R {
    s.bulk = true;
    texts(s)
}
/// long texts with one thing wrong or one thing more, at the ends first of all
fn long_edited(s: &mut Src) -> R {
    let fill = match s.raw(3) {
        0 => format!("\"{}\"", "x".repeat(s.wide(20_000))),
        1 => format!("{}1", "1,".repeat(s.wide(3_000))),
        2 => format!("{}[]", "[1 , {\"a\" : null}] , ".repeat(s.wide(800))),
        _ => {
            let n = s.wide(500);
            (0..n + 1).map(|_| spelled(s)).collect::<Vec<_>>().join(",")
        }
    };
    let core = match s.raw(2) {
        0 => format!("[{}]", fill),
        1 => format!("{{\"a\":[{}],\"b\":true}}", fill),
        _ => format!("[[{}],{{\"k\":\"v\"}}]", fill),
    };
    let mut c: Vec<char> = core.chars().collect();
    let p = match s.weighted(&[45, 45, 10]) {
        0 => *s.pick(&PIECES),
        1 => *s.pick(&[",", ";", "]", "}", "\0", "\"", ":", "[", "{", "1", "null", "x", "\u{feff}", "\u{b}", "\u{85}", "\u{a0}", "#", "\\"]),
        _ => " ",
    };
    let n = c.len();
    let at = match s.weighted(&[40, 15, 30, 15]) {
        0 => n,
        1 => 0,
        2 => gen::spot(s, n + 1),
        _ => n - 1,
    };
    match s.weighted(&[75, 15, 10]) {
        0 => {
            c.splice(at..at, p.chars());
        }
        1 if at < n => {
            c.remove(at);
        }
        _ => {}
    }
    let t: String = c.into_iter().collect();
    s.count(hash_bytes(t.as_bytes()));
    s.label_if(t.len() > 300, "longer than 300 bytes");
    s.label_if(t.len() > 5_000, "longer than 5000 bytes");
    judge(s, &t)
}
fn nesting(s: &mut Src) -> R {
    let t = nested(s);
    s.count(hash_bytes(t.as_bytes()));
    s.label_if(rough_depth(&t) == 100, "nesting of exactly 100");
    s.label_if(rough_depth(&t) == 101, "nesting of exactly 101");
    s.label_if(rough_depth(&t) > 127, "nesting over 127");
    judge(s, &t)
}
fn at_limits(s: &mut Src) -> R {
    let t = limits(s);
    s.count(hash_bytes(t.as_bytes()));
    judge(s, &t)
}

/// every text of up to four pieces
fn all_short(s: &mut Src) -> R {
    let set: &[&str] = &["[", "]", "{", "}", ",", ":", "\"a\"", "\"", "1", "-", "0", ".", "e", "null", " ", "t", "\\", "\n"];
    let max = if s.thorough { 5 } else { 4 };
    let mut t = String::new();
    for _ in 0..max {
        let k = s.raw(set.len() as u64);
        if k == 0 {
            break;
        }
        t.push_str(set[k as usize - 1]);
    }
    if !s.mine() {
        return Ok(());
    }
    s.count(hash_bytes(t.as_bytes()));
    judge(s, &t)
}

pub static C20: Prop = Prop {
    id: "C20",
    rule: "every text counts; distinct by the text",
    subs: &[
        Sub { name: "all-short", f: all_short, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: REL },
        Sub { name: "texts", f: texts, mode: Mode::Random, quick: 220_000, thorough: 15_000_000, profiles: BOTH },
        Sub { name: "texts-bulk", f: texts_bulk, mode: Mode::Random, quick: 400, thorough: 12000, profiles: BOTH },
        Sub { name: "long-edited", f: long_edited, mode: Mode::Random, quick: 8_000, thorough: 400_000, profiles: BOTH },
        Sub { name: "nesting", f: nesting, mode: Mode::Random, quick: 7_000, thorough: 300_000, profiles: BOTH },
        Sub { name: "at-limits", f: at_limits, mode: Mode::Random, quick: 240, thorough: 6_000, profiles: BOTH },
    ],
    assumptions: &[
        "the reference reader (yvbase::json) is right about which texts are RFC 8259 JSON",
        "numbers outside the domain of C05 and texts with the number marker of the JSON library are left out",
        "a value that a later duplicate key replaces may be refused for its nesting or dropped unseen",
    ],
    known: no_known,
};
