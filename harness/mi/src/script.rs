//! A small language of calls into the crate. The same script runs natively and in the interpreter;
//! every line of it answers with a line that tells what came back.
use std::fmt::Write;
use std::str::FromStr;
use yason::*;

/// Everything that is handed out, with a mark before each piece. Nothing looks at the bytes here: in
/// the interpreter that would take long, and writing them out at the end is enough to notice bytes
/// that nobody wrote.
struct Sum(Vec<u8>, u64);
pub const TEXT: u8 = 1;
pub const BYTES: u8 = 2;
pub const NUM: u8 = 3;
pub const LINE: u8 = 4;
impl Sum {
    /// takes turns
    fn turn(&mut self, n: u64) -> u64 {
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.1 >> 33) % n
    }
    fn piece(&mut self, mark: u8, b: &[u8]) {
        self.0.push(mark);
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
    fn bytes(&mut self, b: &[u8]) {
        self.piece(BYTES, b);
    }
    fn text(&mut self, t: &str) {
        self.piece(TEXT, t.as_bytes());
    }
    fn num(&mut self, n: u64) {
        self.piece(NUM, &n.to_le_bytes());
    }
    /// only whether it is an error
    fn ok<T, E>(&mut self, r: Result<T, E>) -> Option<T> {
        self.num(r.is_ok() as u64);
        r.ok()
    }
    fn told(&mut self, r: Result<impl Into<u64>, YasonError>) {
        if let Some(x) = self.ok(r) {
            self.num(x.into());
        }
    }
    fn maybe(&mut self, r: Result<Option<impl Into<u64>>, YasonError>) {
        if let Some(x) = self.ok(r).flatten() {
            self.num(x.into());
        }
    }
}

/// Tokens: each with its length before it.
struct Tokens<'a>(&'a [u8]);
impl<'a> Tokens<'a> {
    fn get(&mut self) -> Option<&'a str> {
        let (n, rest) = self.0.split_first_chunk::<4>()?;
        let n = u32::from_le_bytes(*n) as usize;
        if rest.len() < n {
            self.0 = &[];
            return None;
        }
        let (t, rest) = rest.split_at(n);
        self.0 = rest;
        Some(unsafe { std::str::from_utf8_unchecked(t) })
    }
    fn next(&mut self) -> &'a str {
        self.get().unwrap_or("")
    }
    fn int(&mut self) -> i64 {
        self.next().parse().unwrap_or(0)
    }
    fn plan(&mut self) -> (u8, &'a str) {
        let t = self.next();
        match t.as_bytes().first() {
            Some(c) => (*c, &t[1..]),
            None => (b'n', ""),
        }
    }
}

/// exactly as much memory as the text needs
fn text(t: &str) -> Box<str> {
    t.into()
}
fn number(t: &str) -> Number {
    Number::from_str(t).unwrap_or_else(|_| Number::from(0))
}
fn count(t: &str) -> u16 {
    t.parse().unwrap_or(0)
}

type B<T> = Result<T, BuildError>;

trait Ar {
    fn null(&mut self) -> B<()>;
    fn bool(&mut self, v: bool) -> B<()>;
    fn num(&mut self, v: &Number) -> B<()>;
    fn str(&mut self, v: &str) -> B<()>;
    fn arr(&mut self, n: u16) -> B<ArrayRefBuilder<'_>>;
    fn obj(&mut self, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>>;
}
trait Ob {
    fn null(&mut self, k: &str) -> B<()>;
    fn bool(&mut self, k: &str, v: bool) -> B<()>;
    fn num(&mut self, k: &str, v: &Number) -> B<()>;
    fn str(&mut self, k: &str, v: &str) -> B<()>;
    fn arr(&mut self, k: &str, n: u16) -> B<ArrayRefBuilder<'_>>;
    fn obj(&mut self, k: &str, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>>;
}
macro_rules! ar {
    ($t:ty) => {
        impl Ar for $t {
            fn null(&mut self) -> B<()> {
                self.push_null().map(|_| ())
            }
            fn bool(&mut self, v: bool) -> B<()> {
                self.push_bool(v).map(|_| ())
            }
            fn num(&mut self, v: &Number) -> B<()> {
                self.push_number(v).map(|_| ())
            }
            fn str(&mut self, v: &str) -> B<()> {
                self.push_string(v).map(|_| ())
            }
            fn arr(&mut self, n: u16) -> B<ArrayRefBuilder<'_>> {
                self.push_array(n)
            }
            fn obj(&mut self, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>> {
                self.push_object(n, sorted)
            }
        }
    };
}
macro_rules! ob {
    ($t:ty) => {
        impl Ob for $t {
            fn null(&mut self, k: &str) -> B<()> {
                self.push_null(k).map(|_| ())
            }
            fn bool(&mut self, k: &str, v: bool) -> B<()> {
                self.push_bool(k, v).map(|_| ())
            }
            fn num(&mut self, k: &str, v: &Number) -> B<()> {
                self.push_number(k, v).map(|_| ())
            }
            fn str(&mut self, k: &str, v: &str) -> B<()> {
                self.push_string(k, v).map(|_| ())
            }
            fn arr(&mut self, k: &str, n: u16) -> B<ArrayRefBuilder<'_>> {
                self.push_array(k, n)
            }
            fn obj(&mut self, k: &str, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>> {
                self.push_object(k, n, sorted)
            }
        }
    };
}
ar!(ArrayBuilder<'_>);
ar!(ArrayRefBuilder<'_>);
ob!(ObjectBuilder<'_>);
ob!(ObjectRefBuilder<'_>);

/// elements up to the closing bracket; the declared count need not be right, a container may be
/// left without being finished ("!" instead of the bracket), and errors do not stop the rest
fn elements(b: &mut dyn Ar, p: &mut Tokens, s: &mut Sum) -> bool {
    loop {
        let (c, t) = p.plan();
        match c {
            b']' => return true,
            b'!' => return false,
            b'n' => drop(s.ok(b.null())),
            b'b' => drop(s.ok(b.bool(t == "1"))),
            b'#' => drop(s.ok(b.num(&number(t)))),
            b's' => drop(s.ok(b.str(&text(t)))),
            b'[' => {
                let n = count(t);
                if let Some(mut x) = s.ok(b.arr(n)) {
                    if elements(&mut x, p, s) {
                        s.ok(x.finish().map(|_| ()));
                    }
                } else {
                    skip(p);
                }
            }
            b'{' => {
                let n = count(&t[1..]);
                if let Some(mut x) = s.ok(b.obj(n, t.starts_with('1'))) {
                    if members(&mut x, p, s) {
                        s.ok(x.finish().map(|_| ()));
                    }
                } else {
                    skip(p);
                }
            }
            _ => return true,
        }
    }
}
fn members(b: &mut dyn Ob, p: &mut Tokens, s: &mut Sum) -> bool {
    loop {
        let (c, k) = p.plan();
        match c {
            b'}' => return true,
            b'!' => return false,
            b'k' => {}
            _ => return true,
        }
        let k = text(k);
        let (c, t) = p.plan();
        match c {
            b'n' => drop(s.ok(b.null(&k))),
            b'b' => drop(s.ok(b.bool(&k, t == "1"))),
            b'#' => drop(s.ok(b.num(&k, &number(t)))),
            b's' => drop(s.ok(b.str(&k, &text(t)))),
            b'[' => {
                let n = count(t);
                if let Some(mut x) = s.ok(b.arr(&k, n)) {
                    drop(k);
                    if elements(&mut x, p, s) {
                        s.ok(x.finish().map(|_| ()));
                    }
                } else {
                    skip(p);
                }
            }
            b'{' => {
                let n = count(&t[1..]);
                if let Some(mut x) = s.ok(b.obj(&k, n, t.starts_with('1'))) {
                    drop(k);
                    if members(&mut x, p, s) {
                        s.ok(x.finish().map(|_| ()));
                    }
                } else {
                    skip(p);
                }
            }
            _ => return true,
        }
    }
}
/// the rest of a container that was refused
fn skip(p: &mut Tokens) {
    let mut open = 1;
    while open > 0 && !p.0.is_empty() {
        match p.plan().0 {
            b'[' | b'{' => open += 1,
            b']' | b'}' | b'!' => open -= 1,
            _ => {}
        }
    }
}

fn owned(p: &mut Tokens, s: &mut Sum) -> Option<YasonBuf> {
    let (c, t) = p.plan();
    match c {
        b'b' => s.ok(Scalar::bool(t == "1")),
        b'#' => s.ok(Scalar::number(number(t))),
        b's' => s.ok(Scalar::string(text(t))),
        b'[' => {
            let mut b = s.ok(ArrayBuilder::try_new(count(t)))?;
            if elements(&mut b, p, s) {
                s.ok(b.finish())
            } else {
                None
            }
        }
        b'{' => {
            let mut b = s.ok(ObjectBuilder::try_new(count(&t[1..]), t.starts_with('1')))?;
            if members(&mut b, p, s) {
                s.ok(b.finish())
            } else {
                None
            }
        }
        _ => s.ok(Scalar::null()),
    }
}
fn into_vec(p: &mut Tokens, v: &mut Vec<u8>, s: &mut Sum) -> Option<YasonBuf> {
    let (c, t) = p.plan();
    let y = match c {
        b'b' => s.ok(Scalar::bool_with_vec(t == "1", v)),
        b'#' => s.ok(Scalar::number_with_vec(number(t), v)),
        b's' => s.ok(Scalar::string_with_vec(text(t), v)),
        b'[' => {
            let mut b = s.ok(ArrayRefBuilder::try_new(v, count(t)))?;
            if elements(&mut b, p, s) {
                s.ok(b.finish())
            } else {
                None
            }
        }
        b'{' => {
            let mut b = s.ok(ObjectRefBuilder::try_new(v, count(&t[1..]), t.starts_with('1')))?;
            if members(&mut b, p, s) {
                s.ok(b.finish())
            } else {
                None
            }
        }
        _ => s.ok(Scalar::null_with_vec(v)),
    }?;
    Some(y.to_owned())
}

const TYPES: [DataType; 6] = [DataType::Object, DataType::Array, DataType::String, DataType::Number, DataType::Bool, DataType::Null];

fn num(s: &mut Sum, n: &Number) {
    let (v, scale, neg) = n.into_parts();
    s.bytes(&v.to_le_bytes());
    s.num(scale as u64);
    s.num(neg as u64);
}
fn value(s: &mut Sum, v: &Value, deep: bool) {
    s.num(v.data_type() as u8 as u64);
    match v {
        Value::Null => {}
        Value::Bool(b) => s.num(*b as u64),
        Value::Number(n) => num(s, n),
        Value::String(t) => s.text(t),
        Value::Array(a) => {
            s.told(a.len().map(|n| n as u64));
            s.told(a.is_empty());
            s.bytes(a.yason().as_bytes());
            if deep {
                array(s, a);
            }
        }
        Value::Object(o) => {
            s.told(o.len().map(|n| n as u64));
            s.told(o.is_empty());
            s.bytes(o.yason().as_bytes());
            if deep {
                object(s, o);
            }
        }
    }
}
fn some(s: &mut Sum, v: Option<Value>) {
    s.num(v.is_some() as u64);
    if let Some(v) = v {
        value(s, &v, false);
    }
}
fn array(s: &mut Sum, a: &Array) {
    if let Some(it) = s.ok(a.iter()) {
        for v in it.take(400) {
            match s.ok(v) {
                Some(v) => value(s, &v, true),
                None => break,
            }
        }
    }
    let n = a.len().unwrap_or(0);
    for _ in 0..3 {
        let i = match s.turn(6) {
            0 => 0,
            1 => n.wrapping_sub(1),
            2 => n,
            3 => [n + 1, usize::MAX, 1 << 32][s.turn(3) as usize],
            _ => s.turn(n.max(1) as u64) as usize,
        };
        let t = TYPES[s.turn(6) as usize];
        match s.turn(10) {
            0 => {
                let v = s.ok(a.get(i));
                some(s, v)
            }
            1 => {
                if i < n {
                    let v = s.ok(unsafe { a.get_unchecked(i) });
                    some(s, v);
                }
            }
            2 => s.told(a.type_of(i).map(|x| x as u8)),
            3 => s.told(a.is_type(i, t)),
            4 => s.told(a.is_null(i)),
            5 => {
                let v = s.ok(a.object(i)).map(Value::Object);
                some(s, v)
            }
            6 => {
                let v = s.ok(a.array(i)).map(Value::Array);
                some(s, v)
            }
            7 => {
                let v = s.ok(a.string(i)).map(Value::String);
                some(s, v)
            }
            8 => {
                let v = s.ok(a.number(i)).map(Value::Number);
                some(s, v)
            }
            _ => {
                let v = s.ok(a.bool(i)).map(Value::Bool);
                some(s, v)
            }
        }
    }
}
fn lookup(s: &mut Sum, o: &Object, k: &str) {
    let t = TYPES[s.turn(6) as usize];
    match s.turn(10) {
        0 => {
            let v = s.ok(o.get(k)).flatten();
            some(s, v)
        }
        1 => s.told(o.contains_key(k)),
        2 => s.maybe(o.type_of(k).map(|x| x.map(|x| x as u8))),
        3 => s.maybe(o.is_type(k, t)),
        4 => s.maybe(o.is_null(k)),
        5 => {
            let v = s.ok(o.object(k)).flatten().map(Value::Object);
            some(s, v)
        }
        6 => {
            let v = s.ok(o.array(k)).flatten().map(Value::Array);
            some(s, v)
        }
        7 => {
            let v = s.ok(o.string(k)).flatten().map(Value::String);
            some(s, v)
        }
        8 => {
            let v = s.ok(o.number(k)).flatten().map(Value::Number);
            some(s, v)
        }
        _ => {
            let v = s.ok(o.bool(k)).flatten().map(Value::Bool);
            some(s, v)
        }
    }
}
fn object(s: &mut Sum, o: &Object) {
    let mut keys = Vec::new();
    if let Some(it) = s.ok(o.iter()) {
        for x in it.take(400) {
            match s.ok(x) {
                Some((k, v)) => {
                    s.text(k);
                    keys.push(k.to_string());
                    value(s, &v, true);
                }
                None => break,
            }
        }
    }
    match s.turn(3) {
        0 => {
            if let Some(it) = s.ok(o.key_iter()) {
                for k in it.take(400) {
                    match s.ok(k) {
                        Some(k) => s.text(k),
                        None => break,
                    }
                }
            }
        }
        1 => {
            if let Some(it) = s.ok(o.value_iter()) {
                for v in it.take(400) {
                    match s.ok(v) {
                        Some(v) => value(s, &v, false),
                        None => break,
                    }
                }
            }
        }
        _ => {}
    }
    for _ in 0..3 {
        let i = s.turn(keys.len().max(1) as u64) as usize;
        match keys.get(i) {
            Some(k) => {
                let mut k = k.clone();
                match s.turn(4) {
                    0 => k.push('\0'),
                    1 => drop(k.pop()),
                    _ => {}
                }
                lookup(s, o, &k.into_boxed_str())
            }
            None => lookup(s, o, ""),
        }
    }
}
fn document(s: &mut Sum, y: &Yason) {
    s.told(y.data_type().map(|x| x as u8));
    s.told(y.is_null());
    match s.turn(6) {
        0 => {
            let v = s.ok(y.object()).map(Value::Object);
            some(s, v)
        }
        1 => {
            let v = s.ok(y.array()).map(Value::Array);
            some(s, v)
        }
        2 => {
            let v = s.ok(y.string()).map(Value::String);
            some(s, v)
        }
        3 => {
            let v = s.ok(y.number()).map(Value::Number);
            some(s, v)
        }
        _ => {
            let v = s.ok(y.bool()).map(Value::Bool);
            some(s, v)
        }
    }
    if let Some(v) = s.ok(Value::try_from(y)) {
        value(s, &v, true);
        let mut room = Vec::new();
        if let Some(z) = s.ok(v.try_to_yason(&mut room)) {
            s.bytes(z.as_bytes());
        }
    }
}

fn queried(s: &mut Sum, q: Result<QueriedValue, YasonError>) {
    if let Some(q) = s.ok(q) {
        let mut t = String::new();
        match &q {
            QueriedValue::None => s.num(0),
            QueriedValue::Yason(y) => {
                s.num(1);
                s.bytes(y.as_bytes());
                document(s, y);
            }
            QueriedValue::Values(v) => {
                s.num(2);
                v.iter().for_each(|v| value(s, v, true));
            }
            QueriedValue::ValuesRef(v) => {
                s.num(3);
                v.iter().for_each(|v| value(s, v, true));
            }
            QueriedValue::Value(v) => {
                s.num(4);
                value(s, v, true);
            }
        }
        for pretty in [false, true] {
            t.clear();
            s.ok(q.format_to(pretty, &mut t));
            s.text(&t);
        }
    }
}

/// A sink that takes so many bytes.
struct Sink(usize, String);
impl Write for Sink {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if t.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= t.len();
        self.1.push_str(t);
        Ok(())
    }
}

/// Runs a script; every line is one call or a few, answered by one line.
pub fn run(script: &[u8]) -> Vec<u8> {
    let mut s = Sum(Vec::new(), 0);
    let mut w = Tokens(script);
    let mut docs: Vec<Box<[u8]>> = Vec::new();
    let mut paths: Vec<PathExpression> = Vec::new();
    let mut room: Vec<u8> = Vec::new();
    while let Some(op) = w.get() {
        s.piece(LINE, op.as_bytes());
        let at = |i: i64| -> &Yason {
            let i = i as usize;
            match docs.len() {
                0 => unsafe { Yason::new_unchecked(&[6u8]) },
                n => unsafe { Yason::new_unchecked(&docs[i % n]) },
            }
        };
        let mut made: Option<YasonBuf> = None;
        match op {
            // build: bytes held before, spare capacity (negative: owned), plan
            "b" => {
                let held = w.int() as usize;
                let spare = w.int();
                if spare < 0 {
                    made = owned(&mut w, &mut s);
                } else {
                    let mut v = Vec::with_capacity(held + spare as usize);
                    v.resize(held, 0xEEu8);
                    made = into_vec(&mut w, &mut v, &mut s);
                    s.bytes(&v[..held.min(v.len())]);
                }
            }
            // parse: bytes held before, spare capacity (negative: owned), text
            "j" => {
                let held = w.int() as usize;
                let spare = w.int();
                let t = text(w.next());
                if spare < 0 {
                    made = s.ok(YasonBuf::parse(&t));
                } else {
                    let mut v = Vec::with_capacity(held + spare as usize);
                    v.resize(held, 0xEEu8);
                    made = s.ok(Yason::parse_to(&mut v, &t)).map(|y| y.to_owned());
                }
            }
            // a path
            "p" => {
                let r = PathExpression::from_str(&text(w.next()));
                if let Err(e) = &r {
                    s.text(&e.to_string());
                }
                if let Some(p) = s.ok(r) {
                    paths.push(p);
                }
            }
            // query: document, path, form
            "q" => {
                let y = at(w.int());
                let i = w.int() as usize;
                let how = w.int();
                if !paths.is_empty() {
                    let p = &paths[i % paths.len()];
                    let mut vals = Vec::new();
                    match how {
                        0 => queried(&mut s, p.query(y, true, None, None)),
                        1 => queried(&mut s, p.query(y, false, None, None)),
                        2 => queried(&mut s, p.query(y, true, Some(&mut vals), None)),
                        3 => queried(&mut s, p.query(y, true, None, Some(&mut room))),
                        4 => queried(&mut s, p.query(y, true, Some(&mut vals), Some(&mut room))),
                        5 => queried(&mut s, p.query(y, false, Some(&mut vals), Some(&mut room))),
                        _ => s.told(p.exists(y)),
                    }
                }
            }
            // everything that can be read
            "r" => {
                let y = at(w.int());
                s.1 = w.int() as u64;
                document(&mut s, y)
            }
            // as text, into a sink of so many bytes
            "f" => {
                let y = at(w.int());
                let n = w.int() as usize;
                for pretty in [false, true] {
                    let mut k = Sink(n, String::new());
                    s.ok(y.format_to(pretty, &mut k));
                    s.text(&k.1);
                    let mut k = Sink(n, String::new());
                    s.ok(write!(k, "{}", y.format(pretty)));
                    s.text(&k.1);
                }
            }
            "e" => {
                let (x, y) = (at(w.int()), at(w.int()));
                s.told(x.equals(y));
                s.told(y.equals(x));
                s.num((x == y) as u64);
            }
            // copies
            "c" => {
                let y = at(w.int());
                let mut z = at(w.int()).to_owned();
                z.clone_from_yason(y);
                s.bytes(z.as_bytes());
                if let Some(b) = s.ok(y.to_yason_buf()) {
                    s.bytes(b.as_bytes());
                    s.num((b == b.clone()) as u64);
                }
                s.bytes(y.to_owned().as_bytes());
            }
            // through a binary format
            "s" => {
                let y = at(w.int()).to_owned();
                if let Some(b) = s.ok(bincode::serialize(&y)) {
                    s.bytes(&b);
                    made = s.ok(bincode::deserialize::<YasonBuf>(&b));
                }
            }
            // only the first bytes of a document, read in every way
            "x" => {
                let b = at(w.int()).as_bytes();
                let n = w.int() as usize;
                let cut: Box<[u8]> = b[..n.clamp(1, b.len())].into();
                let y = unsafe { Yason::new_unchecked(&*cut) };
                document(&mut s, y);
                for pretty in [false, true] {
                    let mut t = String::new();
                    s.ok(y.format_to(pretty, &mut t));
                    s.text(&t);
                }
                for p in &paths {
                    queried(&mut s, p.query(y, true, None, None));
                }
                s.told(y.equals(at(0)));
            }
            _ => {}
        }
        if let Some(y) = made {
            s.bytes(y.as_bytes());
            docs.push(y.as_bytes().into());
        }
    }
    s.0
}
