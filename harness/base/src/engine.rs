//! Choice-sequence property testing engine: every random decision of a case is one recorded number,
//! so shrinking, replay, exhaustive enumeration and coverage-guided mutation all act on the sequence.

use std::cell::RefCell;

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0xABCD_EF01_2345_6789) | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
pub fn hash_bytes(bytes: &[u8]) -> u64 {
    mix(fnv(0xcbf2_9ce4_8422_2325, bytes))
}

pub const MAX_CHOICES: usize = 60_000;
pub const SHM_WORDS: usize = MAX_CHOICES + 64;
pub const SHM_HEART: usize = 0;
pub const SHM_SUB: usize = 1;
pub const SHM_FUEL: usize = 2;
pub const SHM_N: usize = 3;
pub const SHM_BASE: usize = 16;

pub struct Shm(pub *mut u64);
unsafe impl Send for Shm {}
impl Shm {
    pub fn open(path: &str, create: bool) -> Shm {
        use std::os::unix::io::AsRawFd;
        extern "C" {
            fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        }
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("shm open");
        if create {
            f.set_len((SHM_WORDS * 8) as u64).expect("shm len");
        }
        let p = unsafe { mmap(std::ptr::null_mut(), SHM_WORDS * 8, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap failed");
        Shm(p as *mut u64)
    }
    pub fn private() -> Shm {
        Shm(Box::leak(vec![0u64; SHM_WORDS].into_boxed_slice()).as_mut_ptr())
    }
    #[inline]
    pub fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.0.add(i), v) }
    }
    #[inline]
    pub fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(i)) }
    }
}

pub enum Tail {
    Random,
    Zero,
}

/// Source of decisions for one case.
pub struct Src {
    prefix: Vec<u64>,
    tail: Tail,
    pub rng: Rng,
    pub choices: Vec<u64>,
    pub maxes: Vec<u64>,
    shm: *mut u64,
    /// relative size of this case, 1..=100
    pub ramp: u64,
    pub thorough: bool,
    /// the case asks for a large document
    pub bulk: bool,
    shard: Option<(u64, u64)>,
    // results
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub key: u64,
    pub want_desc: bool,
    /// print descriptions at once (the case may end the process)
    pub live: bool,
    pub desc: Vec<String>,
    pub skipped: bool,
}

impl Src {
    pub fn new(prefix: Vec<u64>, tail: Tail, rng: Rng, shm: &Shm) -> Src {
        Src {
            prefix,
            tail,
            rng,
            choices: Vec::new(),
            maxes: Vec::new(),
            shm: shm.0,
            ramp: 100,
            thorough: false,
            bulk: false,
            shard: None,
            labels: Vec::new(),
            nontrivial: false,
            key: 0,
            want_desc: false,
            live: false,
            desc: Vec::new(),
            skipped: false,
        }
    }
    pub fn set_shard(&mut self, s: Option<(u64, u64)>) {
        self.shard = s;
    }

    #[inline]
    fn draw(&mut self, max: u64, fresh: impl FnOnce(&mut Rng, u64) -> u64) -> u64 {
        let pos = self.choices.len();
        if pos >= MAX_CHOICES {
            return 0;
        }
        let mut v = if pos < self.prefix.len() {
            self.prefix[pos]
        } else {
            match self.tail {
                Tail::Zero => 0,
                Tail::Random => {
                    let ramp = self.ramp;
                    fresh(&mut self.rng, ramp)
                }
            }
        };
        if v > max {
            v = if max == u64::MAX { v } else { v % (max + 1) };
        }
        self.choices.push(v);
        self.maxes.push(max);
        unsafe {
            std::ptr::write_volatile(self.shm.add(SHM_BASE + pos), v);
            std::ptr::write_volatile(self.shm.add(SHM_N), pos as u64 + 1);
        }
        v
    }

    /// uniform in 0..=max; 0 is the simplest
    #[inline]
    pub fn raw(&mut self, max: u64) -> u64 {
        self.draw(max, |r, _| r.upto(max))
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.raw(n as u64 - 1) as usize
    }
    #[inline]
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.raw((hi - lo) as u64) as usize
    }
    /// true with probability num/den; false is the simplest
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(1, |r, _| (r.upto(den - 1) < num) as u64) == 1
    }
    #[inline]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// index by weight; index 0 is the simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        self.draw(w.len() as u64 - 1, |r, _| {
            let mut t = r.upto(total - 1);
            for (i, x) in w.iter().enumerate() {
                if t < *x as u64 {
                    return i as u64;
                }
                t -= *x as u64;
            }
            0
        }) as usize
    }
    /// small numbers preferred, scaled by the ramp; 0..=max
    pub fn small(&mut self, max: usize) -> usize {
        self.draw(max as u64, |r, ramp| {
            let m = (max as u64 * ramp / 100).max(1).min(max as u64);
            match r.upto(7) {
                0 => r.upto(1.min(m)),
                1..=3 => r.upto(3.min(m)),
                4 | 5 => r.upto((m / 3).max(1).min(m)),
                _ => r.upto(m),
            }
        }) as usize
    }
    /// sizes and counts: mostly small, sometimes at boundaries of length fields, sometimes near a
    /// constant that the code under test compares with
    pub fn size(&mut self, max: usize) -> usize {
        self.draw(max as u64, |r, ramp| fresh_size(r, ramp, max as u64)) as usize
    }
    /// every order of magnitude up to `max` alike
    pub fn wide(&mut self, max: usize) -> usize {
        self.draw(max as u64, |r, _| {
            let bits = 64 - (max as u64).leading_zeros() as u64;
            if r.upto(9) == 0 {
                return max as u64 - r.upto(max as u64 / 10);
            }
            let top = (1u64 << (1 + r.upto(bits.max(1) - 1))) - 1;
            if r.upto(5) == 0 {
                // next to a power of two
                (top + r.upto(2)).min(max as u64)
            } else {
                r.upto(top.min(max as u64))
            }
        }) as usize
    }
    /// how many bytes a vector holds already: mostly few, sometimes about a boundary, rarely many
    pub fn held(&mut self) -> usize {
        self.draw(70_000, |r, _| match r.upto(99) {
            0..=69 => r.upto(9),
            70..=84 => r.upto(300),
            85..=94 => [127, 128, 255, 256, 512][r.upto(4) as usize] - 1 + r.upto(2),
            95..=97 => r.upto(5_000),
            _ => [16_384, 32_767, 65_535][r.upto(2) as usize] - 1 + r.upto(5),
        }) as usize
    }
    /// arbitrary integers near interesting constants; 0..=max
    pub fn value(&mut self, max: u64) -> u64 {
        self.draw(max, |r, _| match r.upto(9) {
            0..=3 => r.upto(10.min(max)),
            4 | 5 => near_const(r, max),
            6 => {
                let sh = r.upto(63);
                (r.next() >> sh).min(max)
            }
            7 => max - r.upto(3.min(max)),
            _ => r.upto(max),
        })
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// marks the case non-trivial; `key` identifies it for counting distinct cases
    pub fn count(&mut self, key: u64) {
        self.nontrivial = true;
        self.key = self.key.wrapping_mul(31).wrapping_add(key);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = clip(&f(), 1500);
            if self.live {
                use std::io::Write;
                println!("{}", s);
                let _ = std::io::stdout().flush();
            }
            self.desc.push(s);
        }
    }
    /// In exhaustive mode: whether this worker is the one to run the case (call after generating).
    pub fn mine(&mut self) -> bool {
        match self.shard {
            None => true,
            Some((i, n)) => {
                let mut h = 0u64;
                for c in &self.choices {
                    h = mix(h ^ *c);
                }
                let mine = h % n == i;
                self.skipped = !mine;
                mine
            }
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_string();
    }
    let head: String = s.chars().take(n * 2 / 3).collect();
    let total = s.chars().count();
    let tail: String = s.chars().skip(total - n / 4).collect();
    format!("{}…({} chars)…{}", head, total, tail)
}

fn near_const(r: &mut Rng, max: u64) -> u64 {
    let c = yvcov::consts();
    if c.is_empty() {
        return r.upto(300.min(max));
    }
    let v = c[r.upto(c.len() as u64 - 1) as usize];
    let v = match r.upto(5) {
        0 => v.saturating_sub(1),
        1 => v.saturating_add(1),
        2 => v.saturating_mul(2),
        _ => v,
    };
    if v > max {
        r.upto(300.min(max))
    } else {
        v
    }
}

const BOUNDS: [u64; 22] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 31, 32, 33, 64, 100, 101, 127, 128, 255, 256,
];
const BIG: [u64; 12] = [126, 127, 128, 129, 254, 255, 256, 257, 300, 512, 1000, 1024];
const HUGE: [u64; 12] = [4095, 4096, 16382, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537];

fn fresh_size(r: &mut Rng, ramp: u64, max: u64) -> u64 {
    let v = match r.upto(99) {
        0..=54 => {
            let m = 8.min(max).max(1);
            r.upto(m)
        }
        55..=74 => r.upto((40 * ramp / 100).max(1)),
        75..=84 => BOUNDS[r.upto(BOUNDS.len() as u64 - 1) as usize],
        85..=92 => {
            if ramp < 20 {
                r.upto(8)
            } else {
                BIG[r.upto(BIG.len() as u64 - 1) as usize]
            }
        }
        93..=97 => near_const(r, max.min(70_000)),
        98 => {
            if ramp < 50 {
                r.upto(8)
            } else {
                HUGE[r.upto(HUGE.len() as u64 - 1) as usize]
            }
        }
        _ => r.upto(max.min(2000)),
    };
    if v > max {
        r.upto(max.min(40))
    } else {
        v
    }
}

// ---- panic capture -------------------------------------------------------------------------

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, clip(&msg, 400)));
    }));
}

/// Runs `f`; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
