//! C15: sequences of builder calls, right and wrong, against a model.
use super::*;
use crate::drive::*;
use crate::read::content_of;
use std::str::FromStr;
use yason::*;
use yvbase::bnf;
use yvbase::dec::Dec;
use yvbase::run::*;

#[derive(Clone, Debug)]
enum Op {
    /// kind of value, salt of the key
    Push(u8, u8),
    /// a key of this many bytes, pushed with a value of the kind
    LongKey(usize, u8),
    /// a string one byte over the limit
    HugeString(u8),
    Nest { obj: bool, declared: u16, sorted: bool, salt: u8, long_key: bool, ops: Vec<Op>, end: End },
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Finish,
    Drop,
}

/// 2^28 zero bytes that cost nothing until they are read
pub fn huge(n: usize) -> &'static str {
    extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    static P: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    const LEN: usize = (1 << 28) + 4096;
    let p = *P.get_or_init(|| {
        // read-only, private, anonymous, no reserve
        let p = unsafe { mmap(std::ptr::null_mut(), LEN, 1, 0x4022, -1, 0) };
        assert!(p as isize != -1, "mmap failed");
        p as usize
    });
    assert!(n <= LEN);
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n)) }
}

fn long_key(n: usize) -> &'static str {
    static K: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    &K.get_or_init(|| "k".repeat(200_000))[..n]
}

/// the builders behind one interface
trait Any {
    const OBJ: bool;
    fn scalar(&mut self, k: &str, v: &Val) -> B<()>;
    fn nest_obj(&mut self, k: &str, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>>;
    fn nest_arr(&mut self, k: &str, n: u16) -> B<ArrayRefBuilder<'_>>;
}
struct O<T: ObjB>(T);
struct A<T: ArrB>(T);
fn num(d: &Dec) -> Number {
    Number::from_str(&d.text()).expect("small number")
}
impl<T: ObjB> Any for O<T> {
    const OBJ: bool = true;
    fn scalar(&mut self, k: &str, v: &Val) -> B<()> {
        match v {
            Val::Bool(b) => self.0.o_bool(k, *b),
            Val::Num(d) => self.0.o_num(k, &num(d)),
            Val::Str(t) => self.0.o_str(k, t),
            _ => self.0.o_null(k),
        }
    }
    fn nest_obj(&mut self, k: &str, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>> {
        self.0.o_obj(k, n, sorted)
    }
    fn nest_arr(&mut self, k: &str, n: u16) -> B<ArrayRefBuilder<'_>> {
        self.0.o_arr(k, n)
    }
}
impl<T: ArrB> Any for A<T> {
    const OBJ: bool = false;
    fn scalar(&mut self, _: &str, v: &Val) -> B<()> {
        match v {
            Val::Bool(b) => self.0.a_bool(*b),
            Val::Num(d) => self.0.a_num(&num(d)),
            Val::Str(t) => self.0.a_str(t),
            _ => self.0.a_null(),
        }
    }
    fn nest_obj(&mut self, _: &str, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>> {
        self.0.a_obj(n, sorted)
    }
    fn nest_arr(&mut self, _: &str, n: u16) -> B<ArrayRefBuilder<'_>> {
        self.0.a_arr(n)
    }
}

/// the model of one open container
struct Lvl {
    obj: bool,
    declared: u16,
    sorted: bool,
    depth: usize,
    items: Vec<(String, Val)>,
    /// successful pushes beyond the declared count
    over: usize,
    /// a nested container was not finished
    blocked: bool,
}
impl Lvl {
    fn val(&self) -> Val {
        if self.obj {
            Val::Obj(self.items.clone())
        } else {
            Val::Arr(self.items.iter().map(|x| x.1.clone()).collect())
        }
    }
    fn key(&self, salt: u8) -> String {
        let i = self.items.len() + self.over;
        if self.sorted {
            format!("s{:06}", i)
        } else {
            // unique by the number at the end, in any order by what precedes it
            format!("{}{}_{}", "x".repeat(salt as usize % 4), (b'a' + salt % 26) as char, i)
        }
    }
    fn full(&self) -> bool {
        self.items.len() >= self.declared as usize
    }
}

fn value_of(kind: u8, n: usize) -> Val {
    match kind % 5 {
        0 => Val::Null,
        1 => Val::Bool(n % 2 == 0),
        2 => Val::Num(Dec::from_i64(n as i64 * 37 - 5)),
        3 => Val::Str(format!("v{}", n)),
        _ => Val::Str("w".repeat(n % 150)),
    }
}

/// misuse seen, for the statistics
#[derive(Default)]
struct Seen {
    blocked_push: bool,
    blocked_finish: bool,
    over: bool,
    under: bool,
    deep: bool,
    long: bool,
    after_failure: bool,
}

/// what a push may answer; Ok(true) when it was accepted
fn judge_push<T>(l: &Lvl, r: &Result<T, BuildError>, too_long: Option<usize>, nest: bool, what: &str, seen: &mut Seen) -> Result<bool, String> {
    let deep = nest && l.depth >= 100;
    seen.blocked_push |= l.blocked;
    seen.over |= !l.blocked && l.full();
    seen.deep |= deep && !l.blocked;
    seen.long |= too_long.is_some() && !l.blocked;
    let at = || format!("{} at depth {} of {} ({} of {} pushed)", what, l.depth, if l.obj { "an object" } else { "an array" }, l.items.len() + l.over, l.declared);
    match r {
        Ok(_) => {
            if l.blocked {
                return Err(format!("{}: accepted although a nested container is unfinished", at()));
            }
            if deep && !l.full() {
                return Err(format!("{}: accepted below the 100th level", at()));
            }
            if too_long.is_some() && !l.full() {
                return Err(format!("{}: accepted although it is too long", at()));
            }
            Ok(true)
        }
        Err(e) => {
            let ok = match e {
                BuildError::InnerUncompletedError => l.blocked,
                BuildError::NestedTooDeeply => deep,
                BuildError::StringTooLong(n) => too_long == Some(*n),
                // a builder may also refuse what exceeds the declared count at once
                BuildError::InconsistentElementCount { .. } => l.full(),
                _ => false,
            };
            if !ok || (l.blocked && !deep && too_long.is_none() && !l.full() && !matches!(e, BuildError::InnerUncompletedError)) {
                return Err(format!("{}: {:?} is reported (unfinished nested container: {}, too deep: {}, too long: {})", at(), e, l.blocked, deep, too_long.is_some()));
            }
            Ok(false)
        }
    }
}

fn run_ops<T: Any>(b: &mut T, ops: &[Op], l: &mut Lvl, seen: &mut Seen) -> R {
    let mut failed = false;
    for op in ops {
        let n = l.items.len() + l.over;
        seen.after_failure |= failed;
        match op {
            Op::Push(kind, salt) => {
                let k = l.key(*salt);
                let v = value_of(*kind, n);
                let r = b.scalar(&k, &v);
                failed |= r.is_err();
                if judge_push(l, &r, None, false, "a push", seen)? {
                    accept(l, k, v);
                }
            }
            Op::LongKey(len, kind) => {
                if !T::OBJ {
                    continue;
                }
                let v = value_of(*kind, n);
                let r = b.scalar(long_key(*len), &v);
                failed |= r.is_err();
                if judge_push(l, &r, Some(*len), false, "a push with a key that is too long", seen)? {
                    accept(l, long_key(*len).into(), v);
                }
            }
            Op::HugeString(salt) => {
                let k = l.key(*salt);
                // not through the model: copying it would be slow
                let len = 1 << 28;
                let r = b.scalar_huge(&k, huge(len));
                failed |= r.is_err();
                if judge_push(l, &r, Some(len), false, "a push of a string that is too long", seen)? {
                    accept(l, k, Val::Null);
                }
            }
            Op::Nest { obj, declared, sorted, salt, long_key: lk, ops, end } => {
                let short = l.key(*salt);
                let (k, too_long) = if *lk && T::OBJ { (long_key(65_536), Some(65_536)) } else { (short.as_str(), None) };
                let mut inner =
                    Lvl { obj: *obj, declared: *declared, sorted: *sorted && *obj, depth: l.depth + 1, items: Vec::new(), over: 0, blocked: false };
                let done: Option<bool>;
                if *obj {
                    let r = b.nest_obj(k, *declared, *sorted);
                    failed |= r.is_err();
                    if !judge_push(l, &r, too_long, true, "a nested object", seen)? {
                        continue;
                    }
                    let mut x = O(r.map_err(|e| e.to_string())?);
                    run_ops(&mut x, ops, &mut inner, seen)?;
                    done = if *end == End::Finish { Some(judge_finish(&inner, x.0.finish(), seen)?) } else { None };
                } else {
                    let r = b.nest_arr(k, *declared);
                    failed |= r.is_err();
                    if !judge_push(l, &r, too_long, true, "a nested array", seen)? {
                        continue;
                    }
                    let mut x = A(r.map_err(|e| e.to_string())?);
                    run_ops(&mut x, ops, &mut inner, seen)?;
                    done = if *end == End::Finish { Some(judge_finish(&inner, x.0.finish(), seen)?) } else { None };
                }
                accept(l, k.to_string(), inner.val());
                if done != Some(true) {
                    l.blocked = true;
                }
            }
        }
    }
    Ok(())
}
fn accept(l: &mut Lvl, k: String, v: Val) {
    if l.full() {
        l.over += 1;
    } else {
        l.items.push((k, v));
    }
}
trait Huge {
    fn scalar_huge(&mut self, k: &str, t: &str) -> B<()>;
}
impl<T: Any> Huge for T {
    fn scalar_huge(&mut self, k: &str, t: &str) -> B<()> {
        // a Val would copy the string; borrow it as one instead
        let v = std::mem::ManuallyDrop::new(Val::Str(unsafe { String::from_raw_parts(t.as_ptr() as *mut u8, t.len(), t.len()) }));
        self.scalar(k, &v)
    }
}

/// what finish may answer; Ok(true) when it succeeded
fn judge_finish<Y: AsRef<Yason>>(l: &Lvl, r: Result<Y, BuildError>, seen: &mut Seen) -> Result<bool, String> {
    let mismatch = l.over > 0 || l.items.len() != l.declared as usize;
    seen.blocked_finish |= l.blocked;
    seen.under |= !l.blocked && l.items.len() < l.declared as usize;
    let at = || format!("finish at depth {} with {} of {} elements (unfinished nested container: {})", l.depth, l.items.len() + l.over, l.declared, l.blocked);
    match r {
        Ok(y) => {
            if l.blocked || mismatch {
                return Err(format!("{}: succeeds", at()));
            }
            let y = y.as_ref();
            let (got, _) = bnf::decode(y.as_bytes(), &num_bytes).map_err(|e| format!("{}: the document is malformed: {}", at(), e))?;
            if got.canon() != l.val().canon() {
                return Err(format!("{}: the document holds {} but {} was pushed", at(), brief(&got), brief(&l.val())));
            }
            if l.depth == 1 && content_of(y)? != l.val().canon() {
                return Err(format!("{}: the document reads as other content than was pushed", at()));
            }
            Ok(true)
        }
        Err(BuildError::InnerUncompletedError) if l.blocked => Ok(false),
        Err(BuildError::InconsistentElementCount { expected, actual }) if mismatch => {
            let n = l.items.len() + l.over;
            if expected != l.declared || (n <= 65_535 && actual as usize != n) {
                return Err(format!("{}: reported as expected {} and actual {}", at(), expected, actual));
            }
            Ok(false)
        }
        Err(e) => Err(format!("{}: {:?}", at(), e)),
    }
}

#[derive(Clone, Debug)]
struct Script {
    obj: bool,
    owned: bool,
    declared: u16,
    sorted: bool,
    ops: Vec<Op>,
    prefix: usize,
}

fn run_script(sc: &Script, seen: &mut Seen) -> Result<bool, String> {
    let mut l = Lvl { obj: sc.obj, declared: sc.declared, sorted: sc.sorted && sc.obj, depth: 1, items: Vec::new(), over: 0, blocked: false };
    let e = |e: BuildError| format!("a new builder: {}", e);
    let done;
    match (sc.obj, sc.owned) {
        (true, true) => {
            let mut b = O(ObjectBuilder::try_new(sc.declared, sc.sorted).map_err(e)?);
            run_ops(&mut b, &sc.ops, &mut l, seen)?;
            done = judge_finish(&l, b.0.finish(), seen)?;
        }
        (false, true) => {
            let mut b = A(ArrayBuilder::try_new(sc.declared).map_err(e)?);
            run_ops(&mut b, &sc.ops, &mut l, seen)?;
            done = judge_finish(&l, b.0.finish(), seen)?;
        }
        (obj, false) => {
            let mut v = vec![0xA5u8; sc.prefix];
            if obj {
                let mut b = O(ObjectRefBuilder::try_new(&mut v, sc.declared, sc.sorted).map_err(e)?);
                run_ops(&mut b, &sc.ops, &mut l, seen)?;
                done = judge_finish(&l, b.0.finish(), seen)?;
            } else {
                let mut b = A(ArrayRefBuilder::try_new(&mut v, sc.declared).map_err(e)?);
                run_ops(&mut b, &sc.ops, &mut l, seen)?;
                done = judge_finish(&l, b.0.finish(), seen)?;
            }
            if v.len() < sc.prefix || v[..sc.prefix].iter().any(|b| *b != 0xA5) {
                return Err("what the vector held before is damaged".into());
            }
        }
    }
    Ok(done)
}

fn note_seen(s: &mut Src, seen: &Seen, done: bool) {
    s.label_if(seen.blocked_push, "push while a nested container is unfinished");
    s.label_if(seen.blocked_finish, "finish while a nested container is unfinished");
    s.label_if(seen.over, "push beyond the declared count");
    s.label_if(seen.under, "finish before the declared count");
    s.label_if(seen.deep, "nesting below 100 levels");
    s.label_if(seen.long, "key or string too long");
    s.label_if(seen.after_failure, "call after a failed call");
    s.label(if done { "document handed out" } else { "no document" });
}

fn gen_ops(s: &mut Src, depth: usize, dive: usize, budget: &mut usize, faults: bool) -> (u16, Vec<Op>) {
    // a wide container next to where the nesting ends
    let many = (depth + 4 >= dive && dive > 0 && s.chance(1, 8)) || s.chance(1, 400);
    let n = match (many, depth < dive) {
        (true, _) => 1 + s.wide(600),
        (_, true) => 1 + s.below(2),
        _ => s.small(9),
    };
    if many {
        *budget += n;
    }
    let dive_at = if depth < dive { s.below(n) } else { usize::MAX };
    let mut ops = Vec::new();
    let mut counted = 0usize;
    for i in 0..n {
        if *budget == 0 && i != dive_at {
            break;
        }
        *budget = budget.saturating_sub(1);
        let w: [u32; 4] = if faults { [60, 5, 1, 34] } else { [60, 0, 0, 40] };
        let mut kind = if i == dive_at {
            3
        } else if n > 20 && i % 16 != 5 {
            0
        } else {
            s.weighted(&w)
        };
        if !faults && (kind == 1 || kind == 2) {
            kind = 0;
        }
        if kind == 3 && depth >= 104 {
            kind = 0;
        }
        match kind {
            0 => ops.push(Op::Push(s.raw(4) as u8, s.raw(40) as u8)),
            1 => ops.push(Op::LongKey(*s.pick(&[65_536usize, 65_537, 65_540, 131_072, 131_073, 200_000]), s.raw(4) as u8)),
            2 => ops.push(Op::HugeString(s.raw(40) as u8)),
            _ => {
                let obj = s.chance(1, 2);
                let salt = s.raw(40) as u8;
                let sorted = s.chance(1, 2);
                let lk = faults && s.chance(1, 25);
                let (declared, inner) = gen_ops(s, depth + 1, if i == dive_at { dive } else { 0 }, budget, faults);
                let end = if faults && s.chance(1, 12) { End::Drop } else { End::Finish };
                ops.push(Op::Nest { obj, declared, sorted, salt, long_key: lk, ops: inner, end });
            }
        }
        // what will most likely be accepted
        counted += match ops.last() {
            Some(Op::Push(..)) => 1,
            Some(Op::Nest { long_key: false, .. }) if depth < 100 => 1,
            _ => 0,
        };
    }
    let declared = if faults && s.chance(1, 7) {
        match s.raw(4) {
            0 => counted.saturating_sub(1),
            1 => counted + 1,
            2 => 0,
            3 => counted + s.below(5),
            _ => s.size(65_535),
        }
    } else {
        counted
    };
    (declared.min(65_535) as u16, ops)
}

fn count_nests(o: &[Op]) -> usize {
    o.iter().map(|x| if let Op::Nest { ops, .. } = x { 1 + count_nests(ops) } else { 0 }).sum()
}

fn histories(s: &mut Src) -> R {
    let obj = s.chance(1, 2);
    let owned = s.chance(1, 2);
    let sorted = s.chance(1, 2);
    let prefix = s.held();
    let dive = match s.weighted(&[80, 12, 8]) {
        0 => 0,
        1 => s.range(95, 102),
        _ => s.range(3, 20),
    };
    let mut budget = 60;
    let faults = s.chance(9, 10);
    let (declared, ops) = gen_ops(s, 1, dive, &mut budget, faults);
    let sc = Script { obj, owned, declared, sorted, ops, prefix };
    s.note(|| format!("{:?}", sc));
    let mut seen = Seen::default();
    let done = run_script(&sc, &mut seen)?;
    note_seen(s, &seen, done);
    s.label_if(count_nests(&sc.ops) > 0, "nested containers");
    if !sc.ops.is_empty() {
        let h = format!("{:?}", sc);
        s.count(yvbase::engine::hash_bytes(h.as_bytes()));
    }
    Ok(())
}

/// every sequence of up to four steps from a small set, over every kind of builder and declared count
fn all_short(s: &mut Src) -> R {
    let root = s.raw(3);
    let declared = s.raw(3) as u16;
    let sorted = s.raw(1) == 1;
    let mut ops = Vec::new();
    for _ in 0..(if s.thorough { 5 } else { 4 }) {
        let nest = |obj, declared, ops, end| Op::Nest { obj, declared, sorted: true, salt: 7, long_key: false, ops, end };
        let i = ops.len() as u8;
        let op = match s.raw(9) {
            0 => break,
            1 => Op::Push(3, 31u8.wrapping_mul(i + 1)),
            2 => Op::Push(0, 5),
            3 => nest(true, 0, vec![], End::Finish),
            4 => nest(false, 1, vec![Op::Push(2, 1)], End::Finish),
            5 => nest(true, 1, vec![], End::Finish),
            6 => nest(false, 0, vec![], End::Drop),
            7 => nest(false, 0, vec![Op::Push(1, 1)], End::Finish),
            8 => Op::LongKey(65_536, 1),
            _ => nest(true, 1, vec![nest(false, 1, vec![], End::Drop)], End::Finish),
        };
        ops.push(op);
    }
    if !s.mine() {
        return Ok(());
    }
    let sc = Script { obj: root & 1 == 0, owned: root & 2 == 0, declared, sorted, ops, prefix: 3 };
    s.note(|| format!("{:?}", sc));
    s.count(yvbase::engine::hash_bytes(format!("{:?}", sc).as_bytes()));
    let mut seen = Seen::default();
    let done = run_script(&sc, &mut seen)?;
    note_seen(s, &seen, done);
    Ok(())
}

/// far more pushes than declared, so that a 16-bit count comes round
fn wraparound(s: &mut Src) -> R {
    let kind = s.raw(3);
    let d = s.raw(4) as usize;
    let x = s.raw(4) as usize;
    let v = s.raw(2) as usize;
    if !s.mine() {
        return Ok(());
    }
    let declared = [0u16, 1, 2, 300, 65_535][d];
    let extra = [1usize, 65_535, 65_536, 65_537, 131_072][x];
    let n = declared as usize + extra;
    if !s.thorough && declared > 300 && extra > 1 && extra != 65_536 {
        return Ok(());
    }
    s.count(kind << 40 | (declared as u64) << 20 | extra as u64);
    s.note(|| format!("builder {} declared for {} elements, {} pushed, value kind {}", kind, declared, n, v));
    let val = [Val::Null, Val::Str("abc".into()), Val::Bool(true)][v].clone();
    fn go<T: Any>(b: &mut T, declared: u16, n: usize, val: &Val) -> Result<usize, String> {
        let mut ok = 0;
        for i in 0..n {
            let k = if T::OBJ { format!("s{:06}", i) } else { String::new() };
            match b.scalar(&k, val) {
                Ok(()) => ok += 1,
                Err(BuildError::InconsistentElementCount { .. }) if i >= declared as usize => {}
                Err(e) => return Err(format!("push {} of {}: {:?}", i, n, e)),
            }
        }
        Ok(ok)
    }
    fn end<Y: AsRef<Yason>>(r: Result<Y, BuildError>, ok: usize, declared: u16) -> R {
        match r {
            Ok(y) if ok == declared as usize => {
                let (v, _) = bnf::decode(y.as_ref().as_bytes(), &num_bytes)?;
                let n = match &v {
                    Val::Arr(a) => a.len(),
                    Val::Obj(m) => m.len(),
                    _ => usize::MAX,
                };
                if n == ok {
                    Ok(())
                } else {
                    Err(format!("the document holds {} elements, {} were accepted", n, ok))
                }
            }
            Ok(_) => Err(format!("finish succeeds with {} accepted pushes and {} declared", ok, declared)),
            Err(BuildError::InconsistentElementCount { expected, .. }) if ok != declared as usize && expected == declared => Ok(()),
            Err(e) => Err(format!("finish with {} accepted pushes and {} declared: {:?}", ok, declared, e)),
        }
    }
    let e = |e: BuildError| e.to_string();
    let mut vec = vec![1u8, 2, 3];
    match kind {
        0 => {
            let mut b = O(ObjectBuilder::try_new(declared, true).map_err(e)?);
            let ok = go(&mut b, declared, n, &val)?;
            end(b.0.finish(), ok, declared)
        }
        1 => {
            let mut b = A(ArrayBuilder::try_new(declared).map_err(e)?);
            let ok = go(&mut b, declared, n, &val)?;
            end(b.0.finish(), ok, declared)
        }
        2 => {
            let mut b = O(ObjectRefBuilder::try_new(&mut vec, declared, false).map_err(e)?);
            let ok = go(&mut b, declared, n, &val)?;
            end(b.0.finish(), ok, declared)
        }
        _ => {
            let mut b = A(ArrayRefBuilder::try_new(&mut vec, declared).map_err(e)?);
            let ok = go(&mut b, declared, n, &val)?;
            end(b.0.finish(), ok, declared)
        }
    }
}

pub static C15: Prop = Prop {
    id: "C15",
    rule: "a case counts when it makes at least one push; distinct by the sequence of calls",
    subs: &[
        Sub { name: "all-short", f: all_short, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
        Sub { name: "histories", f: histories, mode: Mode::Random, quick: 250_000, thorough: 8_000_000, profiles: BOTH },
        Sub { name: "wraparound", f: wraparound, mode: Mode::Exhaustive, quick: 0, thorough: 0, profiles: BOTH },
    ],
    assumptions: &[
        "a push beyond the declared count may be refused at once or counted and reported by finish",
        "pushing a key twice, or out of order with the sorted flag, is outside the contract",
        "running out of memory is not generated",
    ],
    known: no_known,
};
