use yvbase::engine::Src;
use yvbase::gen;
use yvbase::model::Val;
use yvbase::run::Prop;

pub use crate::read::R;

mod build;
mod accept;
mod access;
mod carrier;
mod cut;
mod extract;
mod fenced;
mod history;
mod json;
mod limits;
mod memory;
mod misuse;
mod path;
mod refusal;
mod serial;
mod text;
mod work;

pub static ALL: &[&Prop] = &[&build::C01, &build::C02, &build::C03, &json::C04, &json::C05, &text::C06, &text::C07, &access::C08, &access::C09, &access::C10, &path::C11, &path::C12, &path::C13, &path::C14, &misuse::C15, &limits::C16, &serial::C17, &extract::C18, &cut::C19, &accept::C20, &memory::C21, &history::C22, &work::C23, &fenced::C24, &refusal::C25];

pub const DOC_RULE: &str = "a case counts when its document holds at least two values or a non-empty string or a non-zero number; distinct by content";

/// a document of any size, with its classes recorded
pub fn any_doc(s: &mut Src) -> Val {
    let c = gen::gen_cfg(s);
    let v = gen::gen_val(s, &c);
    classify(s, &v);
    v
}
pub fn doc_with(s: &mut Src, c: &gen::Cfg) -> Val {
    let v = gen::gen_val(s, c);
    classify(s, &v);
    v
}

pub fn classify(s: &mut Src, v: &Val) {
    s.note(|| format!("document: {}", crate::drive::brief(v)));
    let (mut n, mut long, mut huge, mut wide, mut wide2, mut ctl, mut uni, mut lk) = (0usize, false, false, false, false, false, false, false);
    v.walk(&mut |x| {
        n += 1;
        match x {
            Val::Str(t) => {
                long |= t.len() > 127;
                huge |= t.len() > 16383;
                if t.len() < 5000 {
                    ctl |= t.bytes().any(|b| b < 32);
                    uni |= !t.is_ascii();
                }
            }
            Val::Arr(a) => {
                wide |= a.len() > 12;
                wide2 |= a.len() > 255;
            }
            Val::Obj(m) => {
                wide |= m.len() > 12;
                wide2 |= m.len() > 255;
                lk |= m.len() < 50 && m.iter().any(|x| x.0.len() > 255);
            }
            _ => {}
        }
    });
    let d = v.depth();
    s.label(match v {
        Val::Obj(_) => "root: object",
        Val::Arr(_) => "root: array",
        _ => "root: scalar",
    });
    s.label_if(d >= 3, "nesting of 3 or more");
    s.label_if(d >= 50, "nesting of 50 or more");
    s.label_if(d == 100, "nesting of exactly 100");
    s.label_if(long, "string over 127 bytes");
    s.label_if(huge, "string over 16383 bytes");
    s.label_if(wide, "container of more than 12 elements");
    s.label_if(wide2, "container of more than 255 elements");
    s.label_if(ctl, "control characters");
    s.label_if(uni, "non-ASCII text");
    s.label_if(lk, "key over 255 bytes");
    let nontrivial = match v {
        Val::Null | Val::Bool(_) => false,
        Val::Num(d) => !d.is_zero(),
        Val::Str(t) => !t.is_empty(),
        _ => n > 1,
    };
    if nontrivial {
        s.count(v.hash());
    }
}
