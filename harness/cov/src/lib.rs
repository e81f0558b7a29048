//! Sanitizer-coverage callbacks: edge counters (for corpus guidance), constants the code under test
//! compares against (for value generation) and a count of executed comparisons (a deterministic
//! step budget: a run-away loop is cut off by work done, not by wall clock).
//! This crate itself is never instrumented. Everything runs on one thread per process.
#![allow(static_mut_refs)]

const MAXR: usize = 512;
static mut REGIONS: [(usize, usize); MAXR] = [(0, 0); MAXR];
static mut NREG: usize = 0;

const POOL: usize = 1024;
static mut CONSTS: [u64; POOL] = [0; POOL];
static mut NCONST: usize = 0;
const HT: usize = 4096;
static mut TABLE: [u64; HT] = [0; HT];

static mut STEPS: u64 = 0;
static mut FUEL: u64 = u64::MAX;
static mut ON_FUEL: Option<fn()> = None;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(s: *mut u8, e: *mut u8) {
    for i in 0..NREG {
        if REGIONS[i].0 == s as usize {
            return;
        }
    }
    if NREG < MAXR && (e as usize) > (s as usize) {
        REGIONS[NREG] = (s as usize, e as usize);
        NREG += 1;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_s: *mut usize, _e: *mut usize) {}

#[inline(always)]
unsafe fn step() {
    STEPS += 1;
    if STEPS > FUEL {
        out_of_fuel();
    }
}
#[cold]
#[inline(never)]
unsafe fn out_of_fuel() {
    FUEL = u64::MAX;
    if let Some(f) = ON_FUEL {
        f();
    }
}

#[inline(always)]
unsafe fn konst(v: u64) {
    step();
    if v < 2 || v > (1 << 40) {
        return;
    }
    let mut h = (v.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52) as usize;
    loop {
        let t = TABLE[h];
        if t == v {
            return;
        }
        if t == 0 {
            break;
        }
        h = (h + 1) & (HT - 1);
    }
    if NCONST < POOL {
        TABLE[h] = v;
        CONSTS[NCONST] = v;
        NCONST += 1;
    }
}

macro_rules! cmps {
    ($($plain:ident $cst:ident $t:ty;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $plain(_a: $t, _b: $t) { step(); }
        #[no_mangle]
        pub unsafe extern "C" fn $cst(a: $t, _b: $t) { konst(a as u64); }
    )*};
}
cmps! {
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64;
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    let n = *cases as usize;
    for i in 0..n.min(32) {
        konst(*cases.add(2 + i));
    }
}

/// Constants seen so far in comparisons, in order of first occurrence.
pub fn consts() -> &'static [u64] {
    unsafe { &CONSTS[..NCONST] }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
/// Starts a case: clears edge counters and sets the step budget.
pub fn begin(fuel: u64, on_fuel: fn()) {
    unsafe {
        for i in 0..NREG {
            let (s, e) = REGIONS[i];
            std::ptr::write_bytes(s as *mut u8, 0, e - s);
        }
        STEPS = 0;
        FUEL = fuel;
        ON_FUEL = Some(on_fuel);
    }
}
pub fn end() {
    unsafe { FUEL = u64::MAX }
}
pub fn edges() -> usize {
    unsafe { (0..NREG).map(|i| REGIONS[i].1 - REGIONS[i].0).sum() }
}

#[inline]
fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
/// Folds the counters of the last case into `seen`; returns the number of new features.
pub fn fold(seen: &mut Vec<u8>) -> usize {
    let total = edges();
    if seen.len() != total {
        seen.resize(total, 0);
    }
    let mut new = 0;
    let mut k = 0;
    unsafe {
        for i in 0..NREG {
            let (s, e) = REGIONS[i];
            let r = std::slice::from_raw_parts(s as *const u8, e - s);
            let mut j = 0;
            while j < r.len() {
                if j + 8 <= r.len() && r[j..j + 8] == [0u8; 8] {
                    j += 8;
                    continue;
                }
                let b = bucket(r[j]);
                if b & !seen[k + j] != 0 {
                    seen[k + j] |= b;
                    new += 1;
                }
                j += 1;
            }
            k += r.len();
        }
    }
    new
}
