//! Reading documents in every way the crate offers and comparing with the model.
use crate::drive::of_number;
use yason::*;
use yvbase::model::{key_cmp, Ty, Val, TYPES};

pub type R = Result<(), String>;

pub fn dt(t: Ty) -> DataType {
    match t {
        Ty::Object => DataType::Object,
        Ty::Array => DataType::Array,
        Ty::String => DataType::String,
        Ty::Number => DataType::Number,
        Ty::Bool => DataType::Bool,
        Ty::Null => DataType::Null,
    }
}

/// Ordered members (document order).
pub fn members(m: &[(String, Val)]) -> Vec<(&str, &Val)> {
    let mut r: Vec<(&str, &Val)> = m.iter().map(|(k, v)| (k.as_str(), v)).collect();
    r.sort_by(|a, b| key_cmp(a.0, b.0));
    r
}

/// The content of a value through its iterators.
pub fn content(v: &Value) -> Result<Val, String> {
    Ok(match v {
        Value::Null => Val::Null,
        Value::Bool(b) => Val::Bool(*b),
        Value::Number(n) => Val::Num(of_number(n)),
        Value::String(s) => Val::Str(s.to_string()),
        Value::Array(a) => {
            let mut r = Vec::new();
            for x in a.iter().map_err(|e| format!("array iter: {}", e))? {
                r.push(content(&x.map_err(|e| format!("array element {}: {}", r.len(), e))?)?);
            }
            Val::Arr(r)
        }
        Value::Object(o) => {
            let mut r = Vec::new();
            for x in o.iter().map_err(|e| format!("object iter: {}", e))? {
                let (k, v) = x.map_err(|e| format!("object entry {}: {}", r.len(), e))?;
                r.push((k.to_string(), content(&v)?));
            }
            Val::Obj(r)
        }
    })
}
/// The content of a document.
pub fn content_of(y: &Yason) -> Result<Val, String> {
    content(&Value::try_from(y).map_err(|e| e.to_string())?)
}

fn short<T: std::fmt::Debug>(t: &T) -> String {
    yvbase::engine::clip(&format!("{:?}", t), 160)
}

/// shallow agreement of a read value with the model: type, scalar content, container length
pub fn agrees(got: &Value, want: &Val, what: &dyn Fn() -> String) -> R {
    let ok = match (got, want) {
        (Value::Null, Val::Null) => true,
        (Value::Bool(a), Val::Bool(b)) => a == b,
        (Value::Number(a), Val::Num(b)) => of_number(a) == *b,
        (Value::String(a), Val::Str(b)) => a == b,
        (Value::Array(a), Val::Arr(b)) => a.len().ok() == Some(b.len()),
        (Value::Object(a), Val::Obj(b)) => a.len().ok() == Some(b.len()),
        _ => false,
    };
    if !ok {
        return Err(format!("{} gives {} but {} was stored", what(), short(got), short(want)));
    }
    if got.data_type() != dt(want.ty()) {
        return Err(format!("{}: Value::data_type is {} for {}", what(), got.data_type(), want.ty().name()));
    }
    Ok(())
}

fn unexpected(e: &YasonError, asked: Ty, is: Ty, what: &dyn Fn() -> String) -> R {
    match e {
        YasonError::UnexpectedType { expected, actual } if *expected == dt(asked) && *actual == dt(is) => {
            let t = e.to_string().to_lowercase();
            if !t.contains(asked.name()) || !t.contains(is.name()) {
                return Err(format!("{}: asked for {} of a {}: the error says {}", what(), asked.name(), is.name(), t));
            }
            Ok(())
        }
        e => Err(format!("{}: asked for {} of a {}: {:?}", what(), asked.name(), is.name(), e)),
    }
}

/// outcome of one typed access, in the model's terms
pub enum Got<'a> {
    Absent,
    Val(Value<'a>),
    Err(YasonError),
}

pub fn typed_yason(y: &Yason, t: Ty) -> Got<'_> {
    let r = match t {
        Ty::Object => y.object().map(Value::Object),
        Ty::Array => y.array().map(Value::Array),
        Ty::String => y.string().map(Value::String),
        Ty::Number => y.number().map(Value::Number),
        Ty::Bool => y.bool().map(Value::Bool),
        Ty::Null => match y.is_null() {
            Ok(true) => Ok(Value::Null),
            Ok(false) => return Got::Absent,
            Err(e) => Err(e),
        },
    };
    match r {
        Ok(v) => Got::Val(v),
        Err(e) => Got::Err(e),
    }
}
pub fn typed_member<'a>(o: &Object<'a>, k: &str, t: Ty) -> Got<'a> {
    let r = match t {
        Ty::Object => o.object(k).map(|x| x.map(Value::Object)),
        Ty::Array => o.array(k).map(|x| x.map(Value::Array)),
        Ty::String => o.string(k).map(|x| x.map(Value::String)),
        Ty::Number => o.number(k).map(|x| x.map(Value::Number)),
        Ty::Bool => o.bool(k).map(|x| x.map(Value::Bool)),
        Ty::Null => match o.is_null(k) {
            Ok(Some(true)) => Ok(Some(Value::Null)),
            Ok(_) => Ok(None),
            Err(e) => Err(e),
        },
    };
    match r {
        Ok(Some(v)) => Got::Val(v),
        Ok(None) => Got::Absent,
        Err(e) => Got::Err(e),
    }
}
pub fn typed_element<'a>(a: &Array<'a>, i: usize, t: Ty) -> Got<'a> {
    let r = match t {
        Ty::Object => a.object(i).map(Value::Object),
        Ty::Array => a.array(i).map(Value::Array),
        Ty::String => a.string(i).map(Value::String),
        Ty::Number => a.number(i).map(Value::Number),
        Ty::Bool => a.bool(i).map(Value::Bool),
        Ty::Null => match a.is_null(i) {
            Ok(true) => Ok(Value::Null),
            Ok(false) => return Got::Absent,
            Err(e) => Err(e),
        },
    };
    match r {
        Ok(v) => Got::Val(v),
        Err(e) => Got::Err(e),
    }
}

fn judge(g: Got, t: Ty, want: &Val, what: &dyn Fn() -> String) -> R {
    let is = want.ty();
    match g {
        Got::Val(v) if t == is => agrees(&v, want, &|| format!("{} as {}", what(), t.name())),
        Got::Val(v) => Err(format!("{} as {}: it is a {} but {} was returned", what(), t.name(), is.name(), short(&v))),
        Got::Absent if t == Ty::Null && is != Ty::Null => Ok(()),
        Got::Absent => Err(format!("{} as {}: reported absent, it is a {}", what(), t.name(), is.name())),
        Got::Err(e) if t == is => Err(format!("{} as {}: {}", what(), t.name(), e)),
        Got::Err(e) if t == Ty::Null => Err(format!("{}: is_null: {}", what(), e)),
        Got::Err(e) => unexpected(&e, t, is, what),
    }
}

pub struct Opt {
    /// ask every position for every type
    pub types: bool,
    /// containers up to this many elements are asked for every position
    pub all_upto: usize,
}
pub const FULL: Opt = Opt { types: true, all_upto: 300 };
pub const LIGHT: Opt = Opt { types: false, all_upto: 40 };

fn asked(o: &Opt, is: Ty) -> Vec<Ty> {
    if o.types {
        TYPES.to_vec()
    } else {
        vec![is]
    }
}

pub fn picks(n: usize, upto: usize) -> Vec<usize> {
    if n <= upto {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..12).collect();
        v.extend(n - 12..n);
        let step = (n / 40).max(1);
        v.extend((0..n).step_by(step));
        for p in [127usize, 128, 255, 256, 257, 4095, 4096, 32767, 32768] {
            if p < n {
                v.push(p);
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    }
}

/// The whole document, in every way of reading.
pub fn check_doc(y: &Yason, v: &Val, o: &Opt) -> R {
    let what = || "the document".to_string();
    let t = y.data_type().map_err(|e| format!("data_type: {}", e))?;
    if t != dt(v.ty()) {
        return Err(format!("the document is a {} but {} was stored", t, v.ty().name()));
    }
    for t in asked(o, v.ty()) {
        judge(typed_yason(y, t), t, v, &what)?;
    }
    let val = Value::try_from(y).map_err(|e| format!("Value::try_from: {}", e))?;
    agrees(&val, v, &what)?;
    check_value(&val, v, o, "$")
}

pub fn check_value(got: &Value, want: &Val, o: &Opt, path: &str) -> R {
    match (got, want) {
        (Value::Object(x), Val::Obj(m)) => check_object(x, m, o, path),
        (Value::Array(x), Val::Arr(a)) => check_array(x, a, o, path),
        _ => agrees(got, want, &|| path.to_string()),
    }
}

fn sub(path: &str, k: &dyn std::fmt::Display) -> String {
    yvbase::engine::clip(&format!("{}.{}", path, k), 300)
}

/// What `Iterator` promises beyond `next`: sizes, skipping, counting and the last element.
pub fn adapters<I, T>(make: &dyn Fn() -> Result<I, YasonError>, n: usize, same: &dyn Fn(&T, usize) -> bool, what: &str) -> R
where
    I: Iterator<Item = Result<T, YasonError>>,
{
    let new = || make().map_err(|e| format!("{}: {}", what, e));
    let hint = |it: &I, left: usize| {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("{}: size_hint is ({}, {:?}) with {} elements left", what, lo, hi, left));
        }
        Ok(())
    };
    let it = new()?;
    hint(&it, n)?;
    let c = it.count();
    if c != n {
        return Err(format!("{}: count is {} of {} elements", what, c, n));
    }
    match (new()?.last(), n) {
        (None, 0) => {}
        (Some(Ok(t)), 1..) if same(&t, n - 1) => {}
        (r, _) => return Err(format!("{}: last is wrong for {} elements (found: {})", what, n, r.is_some())),
    }
    for k in (0..n + 2).step_by((n / 4).max(1)) {
        let mut it = new()?;
        let first = it.nth(k);
        match first {
            None if k >= n => {}
            Some(Ok(t)) if k < n && same(&t, k) => {}
            r => return Err(format!("{}: nth({}) is wrong for {} elements (found: {})", what, k, n, r.is_some())),
        }
        let left = n.saturating_sub(k + 1);
        hint(&it, left)?;
        // after a skip the rest must follow
        match it.nth(1) {
            None if left < 2 => {}
            Some(Ok(t)) if left >= 2 && same(&t, k + 2) => {}
            r => return Err(format!("{}: nth({}) then nth(1) is wrong for {} elements (found: {})", what, k, n, r.is_some())),
        }
        let rest = it.count();
        if rest != left.saturating_sub(2) {
            return Err(format!("{}: {} elements follow nth({}) and nth(1) of {}", what, rest, k, n));
        }
    }
    let stepped: Vec<_> = new()?.step_by(2).collect();
    if stepped.len() != (n + 1) / 2 || !stepped.iter().enumerate().all(|(i, r)| matches!(r, Ok(t) if same(t, 2 * i))) {
        return Err(format!("{}: step_by(2) is wrong for {} elements", what, n));
    }
    Ok(())
}

pub fn check_object(x: &Object, m: &[(String, Val)], o: &Opt, path: &str) -> R {
    let want = members(m);
    let n = x.len().map_err(|e| format!("{}: len: {}", path, e))?;
    if n != want.len() {
        return Err(format!("{}: len is {} but {} members were stored", path, n, want.len()));
    }
    if x.is_empty().map_err(|e| e.to_string())? != want.is_empty() {
        return Err(format!("{}: is_empty is wrong for {} members", path, n));
    }
    let mut it = x.iter().map_err(|e| format!("{}: iter: {}", path, e))?;
    let mut kt = x.key_iter().map_err(|e| format!("{}: key_iter: {}", path, e))?;
    let mut vt = x.value_iter().map_err(|e| format!("{}: value_iter: {}", path, e))?;
    let mut vals = Vec::with_capacity(n);
    for (i, (k, v)) in want.iter().enumerate() {
        let at = || format!("{} entry {}", path, i);
        let (gk, gv) = it.next().ok_or_else(|| format!("{}: iter ends after {} of {}", path, i, n))?.map_err(|e| format!("{}: {}", at(), e))?;
        if gk != *k {
            return Err(format!("{}: key {} but {} is due", at(), short(&gk), short(k)));
        }
        agrees(&gv, v, &at)?;
        let gk = kt.next().ok_or_else(|| format!("{}: key_iter ends after {} of {}", path, i, n))?.map_err(|e| format!("{}: {}", at(), e))?;
        if gk != *k {
            return Err(format!("{}: key_iter gives {} but {} is due", at(), short(&gk), short(k)));
        }
        let gv2 = vt.next().ok_or_else(|| format!("{}: value_iter ends after {} of {}", path, i, n))?.map_err(|e| format!("{}: {}", at(), e))?;
        agrees(&gv2, v, &|| format!("{} by value_iter", at()))?;
        vals.push(gv);
    }
    for _ in 0..2 {
        if it.next().is_some() || kt.next().is_some() || vt.next().is_some() {
            return Err(format!("{}: an iterator goes on after the last of {} members", path, n));
        }
    }
    if n <= 12 {
        let eq = |v: &Value, i: usize| agrees(v, want[i].1, &String::new).is_ok();
        adapters(&|| x.iter(), n, &|t, i| t.0 == want[i].0 && eq(&t.1, i), &format!("{}: iter", path))?;
        adapters(&|| x.key_iter(), n, &|t, i| *t == want[i].0, &format!("{}: key_iter", path))?;
        adapters(&|| x.value_iter(), n, &|t, i| eq(t, i), &format!("{}: value_iter", path))?;
    }
    for i in picks(n, o.all_upto) {
        let (k, v) = want[i];
        check_key(x, k, Some(v), o, path)?;
    }
    for (i, (k, v)) in want.iter().enumerate() {
        match v {
            Val::Obj(_) | Val::Arr(_) => {
                let p = sub(path, k);
                // alternate the way into nested containers
                if i % 2 == 0 {
                    check_value(&vals[i], v, o, &p)?;
                } else {
                    let g = x.get(k).map_err(|e| format!("{}: get: {}", p, e))?.ok_or_else(|| format!("{}: get finds nothing", p))?;
                    check_value(&g, v, o, &p)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// every keyed operation for one key
pub fn check_key(x: &Object, k: &str, want: Option<&Val>, o: &Opt, path: &str) -> R {
    let what = || sub(path, &k);
    let err = |op: &str, e: YasonError| format!("{}: {}: {}", what(), op, e);
    if x.contains_key(k).map_err(|e| err("contains_key", e))? != want.is_some() {
        return Err(format!("{}: contains_key says {}", what(), want.is_none()));
    }
    let g = x.get(k).map_err(|e| err("get", e))?;
    let t = x.type_of(k).map_err(|e| err("type_of", e))?;
    let nl = x.is_null(k).map_err(|e| err("is_null", e))?;
    match want {
        None => {
            if let Some(g) = g {
                return Err(format!("{}: get finds {} under an absent key", what(), short(&g)));
            }
            if t.is_some() || nl.is_some() {
                return Err(format!("{}: type_of/is_null report something for an absent key", what()));
            }
            for t in TYPES {
                if x.is_type(k, dt(t)).map_err(|e| err("is_type", e))?.is_some() {
                    return Err(format!("{}: is_type reports something for an absent key", what()));
                }
                match typed_member(x, k, t) {
                    Got::Absent => {}
                    Got::Val(v) => return Err(format!("{} as {}: absent key gives {}", what(), t.name(), short(&v))),
                    Got::Err(e) => return Err(format!("{} as {}: absent key gives error {}", what(), t.name(), e)),
                }
            }
        }
        Some(v) => {
            let g = g.ok_or_else(|| format!("{}: get finds nothing", what()))?;
            agrees(&g, v, &what)?;
            if t != Some(dt(v.ty())) {
                return Err(format!("{}: type_of is {:?}, stored a {}", what(), t, v.ty().name()));
            }
            if nl != Some(v.ty() == Ty::Null) {
                return Err(format!("{}: is_null is {:?} for a {}", what(), nl, v.ty().name()));
            }
            for t in TYPES {
                if x.is_type(k, dt(t)).map_err(|e| err("is_type", e))? != Some(t == v.ty()) {
                    return Err(format!("{}: is_type({}) is wrong for a {}", what(), t.name(), v.ty().name()));
                }
            }
            for t in asked(o, v.ty()) {
                judge(typed_member(x, k, t), t, v, &what)?;
            }
        }
    }
    Ok(())
}

pub fn check_array(x: &Array, a: &[Val], o: &Opt, path: &str) -> R {
    let n = x.len().map_err(|e| format!("{}: len: {}", path, e))?;
    if n != a.len() {
        return Err(format!("{}: len is {} but {} elements were stored", path, n, a.len()));
    }
    if x.is_empty().map_err(|e| e.to_string())? != a.is_empty() {
        return Err(format!("{}: is_empty is wrong for {} elements", path, n));
    }
    let mut it = x.iter().map_err(|e| format!("{}: iter: {}", path, e))?;
    let mut vals = Vec::with_capacity(n);
    for (i, v) in a.iter().enumerate() {
        let at = || format!("{}[{}]", path, i);
        let g = it.next().ok_or_else(|| format!("{}: iter ends after {} of {}", path, i, n))?.map_err(|e| format!("{}: {}", at(), e))?;
        agrees(&g, v, &at)?;
        vals.push(g);
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return Err(format!("{}: the iterator goes on after the last of {} elements", path, n));
        }
    }
    if n <= 12 {
        adapters(&|| x.iter(), n, &|t, i| agrees(t, &a[i], &String::new).is_ok(), &format!("{}: iter", path))?;
    }
    for i in picks(n, o.all_upto) {
        check_index(x, i, a, o, path)?;
    }
    for (i, v) in a.iter().enumerate() {
        match v {
            Val::Obj(_) | Val::Arr(_) => {
                let p = format!("{}[{}]", path, i);
                if i % 2 == 0 {
                    check_value(&vals[i], v, o, &p)?;
                } else {
                    let g = x.get(i).map_err(|e| format!("{}: get: {}", p, e))?;
                    check_value(&g, v, o, &p)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn oob<T: std::fmt::Debug>(r: Result<T, YasonError>, n: usize, i: usize, what: &str, path: &str) -> R {
    match r {
        Err(e @ YasonError::IndexOutOfBounds { len, index }) if len == n && index == i => {
            let t = e.to_string();
            if !t.contains(&n.to_string()) || !t.contains(&i.to_string()) {
                return Err(format!("{}: {}({}) of {} elements: the error says {}", path, what, i, n, t));
            }
            Ok(())
        }
        r => Err(format!("{}: {}({}) of {} elements gives {}", path, what, i, n, short(&r.map_err(|e| e.to_string())))),
    }
}

/// every indexed operation for one index, inside or outside
pub fn check_index(x: &Array, i: usize, a: &[Val], o: &Opt, path: &str) -> R {
    let n = a.len();
    if i >= n {
        oob(x.get(i).map(|v| v.data_type()), n, i, "get", path)?;
        oob(x.type_of(i), n, i, "type_of", path)?;
        oob(x.is_null(i), n, i, "is_null", path)?;
        for t in TYPES {
            oob(x.is_type(i, dt(t)), n, i, "is_type", path)?;
        }
        oob(x.object(i).map(|_| "object"), n, i, "object", path)?;
        oob(x.array(i).map(|_| "array"), n, i, "array", path)?;
        oob(x.string(i), n, i, "string", path)?;
        oob(x.number(i), n, i, "number", path)?;
        oob(x.bool(i), n, i, "bool", path)?;
        return Ok(());
    }
    let v = &a[i];
    let what = || format!("{}[{}]", path, i);
    let err = |op: &str, e: YasonError| format!("{}: {}: {}", what(), op, e);
    agrees(&x.get(i).map_err(|e| err("get", e))?, v, &what)?;
    agrees(&unsafe { x.get_unchecked(i) }.map_err(|e| err("get_unchecked", e))?, v, &what)?;
    if x.type_of(i).map_err(|e| err("type_of", e))? != dt(v.ty()) {
        return Err(format!("{}: type_of is wrong for a {}", what(), v.ty().name()));
    }
    if x.is_null(i).map_err(|e| err("is_null", e))? != (v.ty() == Ty::Null) {
        return Err(format!("{}: is_null is wrong for a {}", what(), v.ty().name()));
    }
    for t in TYPES {
        if x.is_type(i, dt(t)).map_err(|e| err("is_type", e))? != (t == v.ty()) {
            return Err(format!("{}: is_type({}) is wrong for a {}", what(), t.name(), v.ty().name()));
        }
    }
    for t in asked(o, v.ty()) {
        judge(typed_element(x, i, t), t, v, &what)?;
    }
    Ok(())
}
