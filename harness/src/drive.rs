//! Driving the builders: one plan, any builder.
use std::str::FromStr;
use yason::*;
use yvbase::dec::{spell, Dec};
use yvbase::engine::Src;
use yvbase::gen;
use yvbase::model::{key_cmp, Val};

pub type B<T> = Result<T, BuildError>;

/// The object builders have the same methods without a public common trait.
pub trait ObjB {
    fn o_obj(&mut self, k: &str, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>>;
    fn o_arr(&mut self, k: &str, n: u16) -> B<ArrayRefBuilder<'_>>;
    fn o_str(&mut self, k: &str, v: &str) -> B<()>;
    fn o_num(&mut self, k: &str, v: &Number) -> B<()>;
    fn o_bool(&mut self, k: &str, v: bool) -> B<()>;
    fn o_null(&mut self, k: &str) -> B<()>;
}
pub trait ArrB {
    fn a_obj(&mut self, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>>;
    fn a_arr(&mut self, n: u16) -> B<ArrayRefBuilder<'_>>;
    fn a_str(&mut self, v: &str) -> B<()>;
    fn a_num(&mut self, v: &Number) -> B<()>;
    fn a_bool(&mut self, v: bool) -> B<()>;
    fn a_null(&mut self) -> B<()>;
}
macro_rules! obj {
    ($t:ty) => {
        impl ObjB for $t {
            fn o_obj(&mut self, k: &str, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>> {
                self.push_object(k, n, sorted)
            }
            fn o_arr(&mut self, k: &str, n: u16) -> B<ArrayRefBuilder<'_>> {
                self.push_array(k, n)
            }
            fn o_str(&mut self, k: &str, v: &str) -> B<()> {
                self.push_string(k, v).map(|_| ())
            }
            fn o_num(&mut self, k: &str, v: &Number) -> B<()> {
                self.push_number(k, v).map(|_| ())
            }
            fn o_bool(&mut self, k: &str, v: bool) -> B<()> {
                self.push_bool(k, v).map(|_| ())
            }
            fn o_null(&mut self, k: &str) -> B<()> {
                self.push_null(k).map(|_| ())
            }
        }
    };
}
macro_rules! arr {
    ($t:ty) => {
        impl ArrB for $t {
            fn a_obj(&mut self, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>> {
                self.push_object(n, sorted)
            }
            fn a_arr(&mut self, n: u16) -> B<ArrayRefBuilder<'_>> {
                self.push_array(n)
            }
            fn a_str(&mut self, v: &str) -> B<()> {
                self.push_string(v).map(|_| ())
            }
            fn a_num(&mut self, v: &Number) -> B<()> {
                self.push_number(v).map(|_| ())
            }
            fn a_bool(&mut self, v: bool) -> B<()> {
                self.push_bool(v).map(|_| ())
            }
            fn a_null(&mut self) -> B<()> {
                self.push_null().map(|_| ())
            }
        }
    };
}
obj!(ObjectBuilder<'_>);
obj!(ObjectRefBuilder<'_>);
arr!(ArrayBuilder<'_>);
arr!(ArrayRefBuilder<'_>);

/// A document with everything decided about how it is pushed.
#[derive(Clone, Debug)]
pub enum Plan {
    Null,
    Bool(bool),
    /// the text the number is made from
    Num(String),
    Str(String),
    Arr(Vec<Plan>),
    Obj(bool, Vec<(String, Plan)>),
}

pub fn to_number(d: &Dec) -> Number {
    Number::from_str(&d.text()).expect("a number in range")
}
pub fn of_number(n: &Number) -> Dec {
    let (v, scale, neg) = n.into_parts();
    Dec::from_u128(neg, v, -(scale as i64))
}
/// JSON text of a number, by the decimal library itself
pub fn num_text(d: &Dec) -> String {
    let mut s = String::new();
    to_number(d).format_to_json(&mut s).expect("number text");
    s
}
pub fn num_bytes(b: &[u8]) -> Result<Dec, String> {
    if b.is_empty() || b.len() > 30 {
        return Err(format!("{} bytes of number data", b.len()));
    }
    Ok(of_number(&Number::decode(b)))
}

/// Decides push orders, sorted flags and number forms.
pub fn plan(s: &mut Src, v: &Val) -> Plan {
    match v {
        Val::Null => Plan::Null,
        Val::Bool(b) => Plan::Bool(*b),
        Val::Num(d) => Plan::Num(if s.chance(1, 3) { number_form(s, d) } else { d.text() }),
        Val::Str(t) => Plan::Str(t.clone()),
        Val::Arr(a) => {
            if a.len() > 200 {
                Plan::Arr(a.iter().map(straight).collect())
            } else {
                Plan::Arr(a.iter().map(|x| plan(s, x)).collect())
            }
        }
        Val::Obj(m) => {
            let mut p: Vec<(String, Plan)> = if m.len() > 200 {
                m.iter().map(|(k, x)| (k.clone(), straight(x))).collect()
            } else {
                m.iter().map(|(k, x)| (k.clone(), plan(s, x))).collect()
            };
            match s.raw(2) {
                0 => {
                    let o = gen::order(s, p.len());
                    p = o.iter().map(|i| p[*i].clone()).collect();
                    Plan::Obj(false, p)
                }
                1 => {
                    p.sort_by(|a, b| key_cmp(&a.0, &b.0));
                    Plan::Obj(true, p)
                }
                _ => {
                    p.sort_by(|a, b| key_cmp(&a.0, &b.0));
                    Plan::Obj(false, p)
                }
            }
        }
    }
}

/// a text of the same value that may give another internal form, always accepted by the library
fn number_form(s: &mut Src, d: &Dec) -> String {
    let t = spell(s, d);
    match Number::from_str(&t) {
        Ok(n) if of_number(&n) == *d => t,
        _ => d.text(),
    }
}

/// the plan without choices: members as they are, unsorted
pub fn straight(v: &Val) -> Plan {
    match v {
        Val::Null => Plan::Null,
        Val::Bool(b) => Plan::Bool(*b),
        Val::Num(d) => Plan::Num(d.text()),
        Val::Str(t) => Plan::Str(t.clone()),
        Val::Arr(a) => Plan::Arr(a.iter().map(straight).collect()),
        Val::Obj(m) => Plan::Obj(false, m.iter().map(|(k, x)| (k.clone(), straight(x))).collect()),
    }
}

fn num(t: &str) -> Number {
    Number::from_str(t).expect("a number in range")
}

fn fill_obj<T: ObjB>(b: &mut T, m: &[(String, Plan)]) -> B<()> {
    for (k, v) in m {
        match v {
            Plan::Null => b.o_null(k)?,
            Plan::Bool(x) => b.o_bool(k, *x)?,
            Plan::Num(t) => b.o_num(k, &num(t))?,
            Plan::Str(t) => b.o_str(k, t)?,
            Plan::Arr(a) => {
                let mut n = b.o_arr(k, a.len() as u16)?;
                fill_arr(&mut n, a)?;
                n.finish()?;
            }
            Plan::Obj(sorted, m) => {
                let mut n = b.o_obj(k, m.len() as u16, *sorted)?;
                fill_obj(&mut n, m)?;
                n.finish()?;
            }
        }
    }
    Ok(())
}
fn fill_arr<T: ArrB>(b: &mut T, a: &[Plan]) -> B<()> {
    for v in a {
        match v {
            Plan::Null => b.a_null()?,
            Plan::Bool(x) => b.a_bool(*x)?,
            Plan::Num(t) => b.a_num(&num(t))?,
            Plan::Str(t) => b.a_str(t)?,
            Plan::Arr(a) => {
                let mut n = b.a_arr(a.len() as u16)?;
                fill_arr(&mut n, a)?;
                n.finish()?;
            }
            Plan::Obj(sorted, m) => {
                let mut n = b.a_obj(m.len() as u16, *sorted)?;
                fill_obj(&mut n, m)?;
                n.finish()?;
            }
        }
    }
    Ok(())
}

pub fn owned(p: &Plan) -> B<YasonBuf> {
    match p {
        Plan::Null => Scalar::null(),
        Plan::Bool(x) => Scalar::bool(*x),
        Plan::Num(t) => Scalar::number(num(t)),
        Plan::Str(t) => Scalar::string(t),
        Plan::Arr(a) => {
            let mut b = ArrayBuilder::try_new(a.len() as u16)?;
            fill_arr(&mut b, a)?;
            b.finish()
        }
        Plan::Obj(sorted, m) => {
            let mut b = ObjectBuilder::try_new(m.len() as u16, *sorted)?;
            fill_obj(&mut b, m)?;
            b.finish()
        }
    }
}

pub fn into_vec<'a>(p: &Plan, bytes: &'a mut Vec<u8>) -> B<&'a Yason> {
    match p {
        Plan::Null => Scalar::null_with_vec(bytes),
        Plan::Bool(x) => Scalar::bool_with_vec(*x, bytes),
        Plan::Num(t) => Scalar::number_with_vec(num(t), bytes),
        Plan::Str(t) => Scalar::string_with_vec(t, bytes),
        Plan::Arr(a) => {
            let mut b = ArrayRefBuilder::try_new(bytes, a.len() as u16)?;
            fill_arr(&mut b, a)?;
            b.finish()
        }
        Plan::Obj(sorted, m) => {
            let mut b = ObjectRefBuilder::try_new(bytes, m.len() as u16, *sorted)?;
            fill_obj(&mut b, m)?;
            b.finish()
        }
    }
}

/// Document bytes behind a chosen prefix, so that they start at any alignment.
pub struct Doc {
    buf: Vec<u8>,
    at: usize,
}
impl Doc {
    pub fn yason(&self) -> &Yason {
        unsafe { Yason::new_unchecked(&self.buf[self.at..]) }
    }
}

/// Builds by one of the routes, chosen at random.
pub fn build(s: &mut Src, v: &Val) -> Result<Doc, String> {
    let p = plan(s, v);
    build_plan(s, &p)
}
pub fn build_plan(s: &mut Src, p: &Plan) -> Result<Doc, String> {
    if s.chance(1, 2) {
        let n = s.held();
        let mut buf = vec![0xEEu8; n];
        let got = into_vec(p, &mut buf).map_err(|e| format!("building into a vector failed: {}", e))?.as_bytes().to_vec();
        if buf.len() < n || buf[..n].iter().any(|b| *b != 0xEE) || buf[n..] != got[..] {
            return Err("the vector does not hold its old content followed by the document".into());
        }
        Ok(Doc { buf: crate::dirty::snug_bytes(buf), at: n })
    } else {
        let y = owned(p).map_err(|e| format!("building failed: {}", e))?;
        Ok(Doc { buf: y.as_bytes().to_vec(), at: 0 })
    }
}

pub fn brief(v: &Val) -> String {
    yvbase::engine::clip(&yvbase::json::compact(v, &|d| d.text()), 600)
}
