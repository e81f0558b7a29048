//! Reference model of a document.
use crate::dec::Dec;
use crate::engine::hash_bytes;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Num(Dec),
    Str(String),
    Arr(Vec<Val>),
    /// distinct keys, any order; `canon` sorts
    Obj(Vec<(String, Val)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Object = 1,
    Array = 2,
    String = 3,
    Number = 4,
    Bool = 5,
    Null = 6,
}
pub const TYPES: [Ty; 6] = [Ty::Object, Ty::Array, Ty::String, Ty::Number, Ty::Bool, Ty::Null];

impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Ty::Object => "object",
            Ty::Array => "array",
            Ty::String => "string",
            Ty::Number => "number",
            Ty::Bool => "bool",
            Ty::Null => "null",
        }
    }
}

/// the documented key order: byte length, then bytes
pub fn key_lt(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return a.len() < b.len();
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
pub fn key_cmp(a: &str, b: &str) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    if key_lt(a, b) {
        Less
    } else if key_lt(b, a) {
        Greater
    } else {
        Equal
    }
}

impl Val {
    pub fn ty(&self) -> Ty {
        match self {
            Val::Null => Ty::Null,
            Val::Bool(_) => Ty::Bool,
            Val::Num(_) => Ty::Number,
            Val::Str(_) => Ty::String,
            Val::Arr(_) => Ty::Array,
            Val::Obj(_) => Ty::Object,
        }
    }
    /// with members of all objects in document order
    pub fn canon(&self) -> Val {
        match self {
            Val::Arr(v) => Val::Arr(v.iter().map(|x| x.canon()).collect()),
            Val::Obj(m) => {
                let mut m: Vec<(String, Val)> = m.iter().map(|(k, v)| (k.clone(), v.canon())).collect();
                m.sort_by(|a, b| key_cmp(&a.0, &b.0));
                Val::Obj(m)
            }
            v => v.clone(),
        }
    }
    /// within the limits on counts and key lengths
    pub fn fits(&self) -> bool {
        let mut ok = true;
        self.walk(&mut |v| match v {
            Val::Arr(a) => ok &= a.len() <= 65_535,
            Val::Obj(m) => ok &= m.len() <= 65_535 && m.iter().all(|x| x.0.len() <= 65_535),
            _ => {}
        });
        ok
    }
    pub fn nodes(&self) -> usize {
        1 + match self {
            Val::Arr(v) => v.iter().map(|x| x.nodes()).sum(),
            Val::Obj(m) => m.iter().map(|x| x.1.nodes()).sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Val::Arr(v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            Val::Obj(m) => 1 + m.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn hash(&self) -> u64 {
        hash_bytes(format!("{:?}", self).as_bytes())
    }
    /// calls f on every value, parents first
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Val)) {
        f(self);
        match self {
            Val::Arr(v) => v.iter().for_each(|x| x.walk(f)),
            Val::Obj(m) => m.iter().for_each(|x| x.1.walk(f)),
            _ => {}
        }
    }
}
