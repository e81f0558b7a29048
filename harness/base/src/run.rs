//! Worker and parent processes: case loops, corpus guidance, shrinking, crash detection, evidence.

use crate::engine::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut Src) -> Result<(), String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// fresh random cases, a share of them mutated from a coverage-guided corpus
    Random,
    /// every choice sequence of the case function
    Exhaustive,
}

pub const DBG: u8 = 1;
pub const REL: u8 = 2;
pub const BOTH: u8 = 3;

pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    pub mode: Mode,
    /// cases over all workers and profiles (random mode)
    pub quick: u64,
    pub thorough: u64,
    pub profiles: u8,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: &'static [Sub],
    pub assumptions: &'static [&'static str],
    /// known findings that are not repaired: (key, still fails?)
    pub known: fn() -> Vec<(String, Result<(), String>)>,
}

/// C19 cuts at, and C21 fails at, every point of a small case; the others sample
fn level(id: &str) -> &'static str {
    if id == "C19" || id == "C21" {
        "fault_enumeration"
    } else {
        "exploration"
    }
}

pub fn no_known() -> Vec<(String, Result<(), String>)> {
    Vec::new()
}

/// comparisons one case may execute before it is called a run-away
pub const FUEL: u64 = 6_000_000_000;
const FUEL_EXIT: i32 = 77;
/// seconds without a finished case after which a worker is taken for hung, and the processor time
/// after which the same case, run alone, is called non-terminating
const HANG_WALL: u64 = 150;
const HANG_CPU: u64 = 60;
const STACK: usize = 8 << 20;
pub const WORKERS_PER_PROFILE: u64 = 4;

static mut SHM_PTR: *mut u64 = std::ptr::null_mut();
fn on_fuel() {
    unsafe {
        if !SHM_PTR.is_null() {
            std::ptr::write_volatile(SHM_PTR.add(SHM_FUEL), 1);
        }
    }
    std::process::exit(FUEL_EXIT);
}

/// Memory limit of one worker, so that a run-away that allocates ends as a failed allocation in that
/// worker and not as a machine without memory.
fn limit_memory(id: &str) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    let gb: u64 = if id == "C16" { 12 } else { 3 };
    let l = [gb << 30, gb << 30];
    unsafe {
        setrlimit(9, &l);
    }
}
fn limit_cpu(seconds: u64) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    let l = [seconds, seconds + 5];
    unsafe {
        setrlimit(0, &l);
    }
}

pub fn is_debug() -> bool {
    cfg!(debug_assertions)
}
fn profile_bit() -> u8 {
    if is_debug() {
        DBG
    } else {
        REL
    }
}
fn profile_name() -> &'static str {
    if is_debug() {
        "debug"
    } else {
        "release"
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (c as u32 >= 0x80 && c as u32 <= 0x9f) || c == '\u{2028}' || c == '\u{2029}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Outcome {
    res: Result<(), String>,
}

fn run_case(f: CaseFn, s: &mut Src) -> Outcome {
    yvcov::begin(FUEL, on_fuel);
    let res = guard(|| f(s));
    yvcov::end();
    Outcome { res }
}

fn choices_str(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_choices(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

/// Shrinks a failing choice sequence. `fails` re-runs a candidate; returns the choices it consumed.
fn shrink(start: Vec<u64>, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>, budget: usize, limit: Duration) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut left = budget;
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut try_it = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || t0.elapsed() > limit {
            *left = 0;
            return false;
        }
        *left -= 1;
        if let Some(c) = fails(&cand) {
            if simpler(&c, best) {
                *best = c;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1).min(512);
        while k >= 1 && left > 0 {
            let mut i = best.len();
            while i >= k && left > 0 {
                if i <= best.len() {
                    let mut c = best.clone();
                    c.drain(i - k..i);
                    if try_it(c, &mut best, &mut left) {
                        i = i.min(best.len());
                        continue;
                    }
                }
                i -= if k > 1 { (k / 2).max(1) } else { 1 };
            }
            k /= 2;
        }
        // zero chunks
        for k in [16usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() && left > 0 {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    try_it(c, &mut best, &mut left);
                }
                i += k;
            }
        }
        // minimise single values; also decrement a value while deleting one later choice
        let mut i = 0;
        while i < best.len() && left > 0 {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_it(c, &mut best, &mut left) {
                    let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
                    while lo + 1 < hi && left > 0 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_it(c, &mut best, &mut left) {
                            hi = best.get(i).copied().unwrap_or(0).min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        for d in 1..4usize {
                            if i + d < best.len() && left > 0 && best[i] > 0 {
                                let mut c = best.clone();
                                c[i] -= 1;
                                c.remove(i + d);
                                try_it(c, &mut best, &mut left);
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || left == 0 {
            return best;
        }
    }
}

fn mutate(r: &mut Rng, corpus: &[Vec<u64>]) -> Vec<u64> {
    let mut c = corpus[r.upto(corpus.len() as u64 - 1) as usize].clone();
    let n = 1 + r.upto(3);
    for _ in 0..n {
        if c.is_empty() {
            break;
        }
        let i = r.upto(c.len() as u64 - 1) as usize;
        match r.upto(9) {
            0 => c[i] = r.upto(3),
            1 => c[i] = c[i].wrapping_add(1),
            2 => c[i] = c[i].wrapping_sub(1),
            3 => c[i] = r.next() >> r.upto(63),
            4 => {
                let j = (i + 1 + r.upto(8) as usize).min(c.len());
                c.drain(i..j);
            }
            5 => {
                let j = (i + 1 + r.upto(12) as usize).min(c.len());
                let chunk: Vec<u64> = c[i..j].to_vec();
                let at = r.upto(c.len() as u64) as usize;
                c.splice(at..at, chunk);
            }
            6 => {
                let o = &corpus[r.upto(corpus.len() as u64 - 1) as usize];
                if !o.is_empty() {
                    let a = r.upto(o.len() as u64 - 1) as usize;
                    let b = (a + 1 + r.upto(16) as usize).min(o.len());
                    let at = r.upto(c.len() as u64) as usize;
                    let end = (at + (b - a)).min(c.len());
                    c.splice(at..end, o[a..b].iter().copied());
                }
            }
            7 => c.truncate(i),
            8 => {
                let k = yvcov::consts();
                if !k.is_empty() {
                    c[i] = k[r.upto(k.len() as u64 - 1) as usize].wrapping_add(r.upto(2)).wrapping_sub(1);
                }
            }
            _ => {
                let j = r.upto(c.len() as u64 - 1) as usize;
                c.swap(i, j);
            }
        }
    }
    c.truncate(8000);
    c
}

struct SubStats {
    evals: u64,
    mutated: u64,
    nontrivial: u64,
    max_steps: u64,
    labels: BTreeMap<&'static str, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
    corpus: usize,
    features: usize,
}

fn worker(p: &Prop, idx: u64, n: u64, seed: u64, thorough: bool, shm: &Shm, hash_file: &str, deadline: u64) {
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut total_edges_seen: Vec<u8> = Vec::new();
    for (si, sub) in p.subs.iter().enumerate() {
        if sub.profiles & profile_bit() == 0 {
            continue;
        }
        shm.set(SHM_SUB, si as u64);
        let mut st = SubStats {
            evals: 0,
            mutated: 0,
            nontrivial: 0,
            max_steps: 0,
            labels: BTreeMap::new(),
            hashes: HashSet::new(),
            samples: Vec::new(),
            corpus: 0,
            features: 0,
        };
        let sub_seed = mix(seed ^ mix(hash_bytes(p.id.as_bytes()) ^ hash_bytes(sub.name.as_bytes()) ^ (idx << 8) ^ profile_bit() as u64));
        let mut rng = Rng::new(sub_seed);
        let mut viol: Option<(Vec<u64>, String)> = None;
        let mut truncated = false;
        match sub.mode {
            Mode::Random => {
                let total = if thorough { sub.thorough } else { sub.quick };
                let share = match (sub.profiles, is_debug()) {
                    (BOTH, true) => total * 35 / 100,
                    (BOTH, false) => total - total * 35 / 100,
                    _ => total,
                };
                let cases = (share + n - 1 - idx.min(n - 1)) / n;
                let mut corpus: Vec<Vec<u64>> = Vec::new();
                for k in 0..cases {
                    if t0.elapsed().as_secs() > deadline {
                        truncated = true;
                        break;
                    }
                    let case_rng = Rng::new(rng.next());
                    let use_mut = !corpus.is_empty() && rng.upto(9) < 4;
                    let prefix = if use_mut { mutate(&mut rng, &corpus) } else { Vec::new() };
                    let mut s = Src::new(prefix, Tail::Random, case_rng, shm);
                    s.thorough = thorough;
                    s.ramp = if use_mut { 50 } else { (10 + k * 180 / cases.max(1)).min(100) };
                    shm.set(SHM_HEART, shm.get(SHM_HEART) + 1);
                    shm.set(SHM_N, 0);
                    let o = run_case(sub.f, &mut s);
                    st.evals += 1;
                    st.mutated += use_mut as u64;
                    let steps = yvcov::steps();
                    st.max_steps = st.max_steps.max(steps);
                    let newf = yvcov::fold(&mut total_edges_seen);
                    st.features += newf;
                    if newf > 0 && s.choices.len() <= 4000 && corpus.len() < 4000 {
                        corpus.push(s.choices.clone());
                    }
                    note_stats(&mut st, &s, k);
                    if let Err(m) = o.res {
                        viol = Some((s.choices.clone(), m));
                        break;
                    }
                }
                st.corpus = corpus.len();
            }
            Mode::Exhaustive => {
                let mut prefix: Vec<u64> = Vec::new();
                loop {
                    if t0.elapsed().as_secs() > deadline {
                        truncated = true;
                        break;
                    }
                    let mut s = Src::new(prefix.clone(), Tail::Zero, Rng::new(0), shm);
                    s.thorough = thorough;
                    s.set_shard(Some((idx, n)));
                    shm.set(SHM_HEART, shm.get(SHM_HEART) + 1);
                    shm.set(SHM_N, 0);
                    let o = run_case(sub.f, &mut s);
                    if !s.skipped {
                        st.evals += 1;
                        st.max_steps = st.max_steps.max(yvcov::steps());
                        st.features += yvcov::fold(&mut total_edges_seen);
                        let k = st.evals;
                        note_stats(&mut st, &s, k);
                    }
                    if let Err(m) = o.res {
                        viol = Some((s.choices.clone(), m));
                        break;
                    }
                    // odometer
                    let mut i = s.choices.len();
                    let mut done = true;
                    while i > 0 {
                        i -= 1;
                        if s.choices[i] < s.maxes[i] {
                            prefix = s.choices[..i].to_vec();
                            prefix.push(s.choices[i] + 1);
                            done = false;
                            break;
                        }
                    }
                    if done {
                        break;
                    }
                }
            }
        }
        if let Some((c, m)) = viol {
            let f = sub.f;
            let mut last_msg = m;
            let best = shrink(
                c,
                &mut |cand| {
                    let mut s = Src::new(cand.to_vec(), Tail::Zero, Rng::new(0), shm);
                    shm.set(SHM_HEART, shm.get(SHM_HEART) + 1);
                    shm.set(SHM_N, 0);
                    let o = run_case(f, &mut s);
                    o.res.err().map(|_| s.choices.clone())
                },
                6000,
                Duration::from_secs(20),
            );
            let mut s = Src::new(best.clone(), Tail::Zero, Rng::new(0), shm);
            s.want_desc = true;
            let o = run_case(sub.f, &mut s);
            if let Err(m) = o.res {
                last_msg = m;
            }
            let mut o = out.lock();
            let _ = writeln!(o, "VIOL\t{}\t{}\t{}\t{}", sub.name, choices_str(&best), esc(&last_msg), esc(&s.desc.join("\n")));
        }
        let mut o = out.lock();
        let _ = writeln!(
            o,
            "SUB\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            sub.name, st.evals, st.nontrivial, st.max_steps, st.mutated, st.corpus, st.features, truncated as u8
        );
        for (l, c) in &st.labels {
            let _ = writeln!(o, "LABEL\t{}\t{}\t{}", sub.name, l, c);
        }
        for x in &st.samples {
            let _ = writeln!(o, "SAMPLE\t{}\t{}", sub.name, esc(x));
        }
        let _ = o.flush();
        // distinct hashes
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(hash_file).expect("hash file");
        let mut buf = Vec::with_capacity(st.hashes.len() * 8);
        for h in &st.hashes {
            buf.extend_from_slice(&mix(*h ^ si as u64).to_le_bytes());
        }
        let _ = f.write_all(&buf);
    }
    if idx == 0 {
        for (k, r) in (p.known)() {
            let mut o = out.lock();
            match r {
                Ok(()) => {
                    let _ = writeln!(o, "KNOWN\t{}\tok\t\"\"", k);
                }
                Err(m) => {
                    let _ = writeln!(o, "KNOWN\t{}\tfails\t{}", k, esc(&m));
                }
            }
        }
    }
    println!("DONE\t{}\t{}", total_edges_seen.iter().filter(|x| **x != 0).count(), yvcov::edges());
}

fn note_stats(st: &mut SubStats, s: &Src, k: u64) {
    if s.nontrivial {
        st.nontrivial += 1;
        if st.hashes.len() < 3_000_000 {
            st.hashes.insert(s.key);
        }
    }
    for l in &s.labels {
        *st.labels.entry(l).or_insert(0) += 1;
    }
    let _ = k;
    if st.samples.len() < 2 && s.nontrivial && s.choices.len() > 3 && s.choices.len() < 400 {
        st.samples.push(choices_str(&s.choices));
    }
}

fn in_thread(f: impl FnOnce() + Send + 'static) {
    let h = std::thread::Builder::new().stack_size(STACK).spawn(f).expect("thread");
    if h.join().is_err() {
        eprintln!("harness error: worker thread panicked outside a case");
        std::process::exit(3);
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

pub fn main_with(props: &'static [&'static Prop]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    match cmd.as_str() {
        "list" => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        "shm" => {
            Shm::open(&args[2], true);
            0
        }
        "worker" => {
            let id = args[2].clone();
            let p: &'static Prop = props.iter().find(|p| p.id == id).expect("property");
            let get = |n: &str| arg(&args, n).unwrap_or_else(|| panic!("missing {n}"));
            let (idx, n, seed) = (get("--idx").parse().unwrap(), get("--n").parse().unwrap(), get("--seed").parse().unwrap());
            let thorough = get("--tier") == "thorough";
            limit_memory(p.id);
            let shm = Shm::open(&get("--shm"), false);
            let hf = get("--hashes");
            let deadline: u64 = get("--deadline").parse().unwrap();
            unsafe { SHM_PTR = shm.0 };
            install_panic_hook();
            in_thread(move || worker(p, idx, n, seed, thorough, &shm, &hf, deadline));
            0
        }
        // run one case in this process: used for replay, for shrinking crashes and for samples
        "case" => {
            let id = args[2].clone();
            let p: &'static Prop = props.iter().find(|p| p.id == id).expect("property");
            let name = arg(&args, "--sub").expect("sub");
            if let Some(k) = name.strip_prefix("known:") {
                for (n, r) in (p.known)() {
                    if let (true, Err(m)) = (n == k, r) {
                        println!("FAILED: {}", m);
                        return 1;
                    }
                }
                return 0;
            }
            let sub: &'static Sub = p.subs.iter().find(|s| s.name == name).expect("sub-check");
            let choices = parse_choices(&std::fs::read_to_string(arg(&args, "--choices").expect("choices")).expect("choices file"));
            let quiet = args.iter().any(|a| a == "--quiet");
            limit_memory(p.id);
            // far beyond what any case that ends needs
            limit_cpu(HANG_CPU);
            let desc_first = args.iter().any(|a| a == "--desc");
            let shm = match arg(&args, "--shm") {
                Some(f) => Shm::open(&f, false),
                None => Shm::private(),
            };
            unsafe { SHM_PTR = shm.0 };
            install_panic_hook();
            let code = std::sync::Arc::new(std::sync::atomic::AtomicI32::new(0));
            let c2 = code.clone();
            in_thread(move || {
                let mut s = Src::new(choices, Tail::Zero, Rng::new(0), &shm);
                s.want_desc = !quiet;
                s.live = !quiet;
                let o = run_case(sub.f, &mut s);
                if let Err(m) = o.res {
                    if !desc_first {
                        println!("FAILED: {}", m);
                    }
                    c2.store(1, std::sync::atomic::Ordering::SeqCst);
                }
            });
            code.load(std::sync::atomic::Ordering::SeqCst)
        }
        "run" => {
            let id = args[2].clone();
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                return 2;
            };
            parent(p, &args)
        }
        _ => {
            eprintln!("usage: yvh run ID --seed N --tier T --dbg BIN --evidence FILE --work DIR --replays DIR --known FILE");
            2
        }
    }
}

struct Child {
    proc: std::process::Child,
    out: std::thread::JoinHandle<Vec<String>>,
    err: std::thread::JoinHandle<String>,
    shm: Shm,
    bin: String,
    profile: &'static str,
    idx: u64,
    last_heart: u64,
    last_change: Instant,
    status: Option<std::process::ExitStatus>,
    hung: bool,
}

struct Viol {
    sub: String,
    profile: String,
    choices: Vec<u64>,
    msg: String,
    desc: String,
    /// arguments of the worker that must be run whole to see it (a crash that needs the cases before it)
    worker: Option<String>,
    /// the worker that found it
    idx: u64,
}

fn parent(p: &'static Prop, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let get = |n: &str| arg(args, n).unwrap_or_else(|| panic!("missing {n}"));
    let seed: u64 = get("--seed").parse().unwrap_or(1);
    let tier = get("--tier");
    let work = get("--work");
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let dbg = get("--dbg");
    let deadline: u64 = arg(args, "--deadline").and_then(|d| d.parse().ok()).unwrap_or(if tier == "thorough" { 5400 } else { 420 });
    let needs = p.subs.iter().fold(0u8, |a, s| a | s.profiles);
    let mut children: Vec<Child> = Vec::new();
    for (bin, bit, profile) in [(me.clone(), REL, "release"), (dbg.clone(), DBG, "debug")] {
        if needs & bit == 0 {
            continue;
        }
        for i in 0..WORKERS_PER_PROFILE {
            let shm_path = format!("{work}/shm-{profile}-{i}");
            let shm = Shm::open(&shm_path, true);
            let mut proc = Command::new(&bin)
                .args(["worker", p.id, "--idx", &i.to_string(), "--n", &WORKERS_PER_PROFILE.to_string()])
                .args(["--seed", &seed.to_string(), "--tier", &tier, "--shm", &shm_path])
                .args(["--hashes", &format!("{work}/hashes-{profile}-{i}"), "--deadline", &deadline.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .expect("spawn worker");
            let so = proc.stdout.take().unwrap();
            let se = proc.stderr.take().unwrap();
            let out = std::thread::spawn(move || BufReader::new(so).lines().map_while(Result::ok).collect::<Vec<_>>());
            let err = std::thread::spawn(move || {
                let mut b = Vec::new();
                let _ = se.take(1 << 16).read_to_end(&mut b);
                String::from_utf8_lossy(&b).to_string()
            });
            children.push(Child {
                proc,
                out,
                err,
                shm,
                bin: bin.clone(),
                profile,
                idx: i,
                last_heart: 0,
                last_change: Instant::now(),
                status: None,
                hung: false,
            });
        }
    }
    // watch
    loop {
        let mut alive = 0;
        for c in children.iter_mut() {
            if c.status.is_some() {
                continue;
            }
            match c.proc.try_wait() {
                Ok(Some(s)) => c.status = Some(s),
                _ => {
                    alive += 1;
                    let h = c.shm.get(SHM_HEART);
                    if h != c.last_heart {
                        c.last_heart = h;
                        c.last_change = Instant::now();
                    } else if c.last_change.elapsed() > Duration::from_secs(HANG_WALL) && !c.hung {
                        c.hung = true;
                        let _ = c.proc.kill();
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let mut viols: Vec<Viol> = Vec::new();
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut subs: BTreeMap<String, (u64, u64, u64, u64, u64, u64, bool)> = BTreeMap::new();
    let mut labels: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut samples: Vec<(String, String, String)> = Vec::new();
    let mut known: BTreeMap<String, Option<String>> = BTreeMap::new();
    let mut edges = (0u64, 0u64);
    let mut errors = 0;
    for c in children {
        let lines = c.out.join().unwrap_or_default();
        let err = c.err.join().unwrap_or_default();
        let status = c.status.unwrap();
        let mut done = false;
        for l in &lines {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "SUB" => {
                    let g = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                    evals += g(2);
                    nontrivial += g(3);
                    let e = subs.entry(f[1].to_string()).or_default();
                    e.0 += g(2);
                    e.1 += g(3);
                    e.2 = e.2.max(g(4));
                    e.3 += g(5);
                    e.4 += g(6);
                    e.5 += g(7);
                    e.6 |= g(8) == 1;
                }
                "LABEL" => *labels.entry(f[1].to_string()).or_default().entry(f[2].to_string()).or_insert(0) += f[3].parse::<u64>().unwrap_or(0),
                "SAMPLE" => samples.push((f[1].to_string(), f[2].trim_matches('"').to_string(), c.bin.clone())),
                "VIOL" => viols.push(Viol {
                    sub: f[1].to_string(),
                    profile: c.profile.to_string(),
                    choices: parse_choices(f[2]),
                    msg: f[3].to_string(),
                    desc: f[4].to_string(),
                    worker: None,
                    idx: c.idx,
                }),
                "KNOWN" => {
                    let e = known.entry(f[1].to_string()).or_default();
                    if f[2] == "fails" {
                        *e = Some(f[3].to_string());
                    }
                }
                "DONE" => {
                    done = true;
                    edges.0 = edges.0.max(f[1].parse().unwrap_or(0));
                    edges.1 = edges.1.max(f[2].parse().unwrap_or(0));
                }
                _ => {}
            }
        }
        if done && status.success() {
            continue;
        }
        use std::os::unix::process::ExitStatusExt;
        let fuel = status.code() == Some(FUEL_EXIT) && c.shm.get(SHM_FUEL) == 1;
        let crash = matches!(status.signal(), Some(4 | 6 | 7 | 8 | 11));
        if !(fuel || crash || c.hung) {
            eprintln!("harness error: worker ended with {status}: {err}");
            errors += 1;
            continue;
        }
        if c.hung && viols.iter().any(|v| v.sub == p.subs.get(c.shm.get(SHM_SUB) as usize).map(|s| s.name).unwrap_or("?")) {
            // one reproduction of a hang is enough
            continue;
        }
        // a case ended the process: recover it from shared memory and shrink it in subprocesses
        let si = c.shm.get(SHM_SUB) as usize;
        let sub = p.subs.get(si).map(|s| s.name).unwrap_or("?");
        let n = (c.shm.get(SHM_N) as usize).min(MAX_CHOICES);
        let choices: Vec<u64> = (0..n).map(|i| c.shm.get(SHM_BASE + i)).collect();
        let cf = format!("{work}/crash-choices");
        let shm2p = format!("{work}/shm-crash");
        let shm2 = Shm::open(&shm2p, true);
        let bin = c.bin.clone();
        let mut fails = |cand: &[u64]| -> Option<Vec<u64>> {
            std::fs::write(&cf, choices_str(cand)).ok()?;
            shm2.set(SHM_N, 0);
            shm2.set(SHM_FUEL, 0);
            let o = Command::new(&bin)
                .args(["case", p.id, "--sub", sub, "--choices", &cf, "--shm", &shm2p, "--quiet"])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .ok()?;
            let bad = matches!(o.signal(), Some(4 | 6 | 7 | 8 | 11 | 24)) || (o.code() == Some(FUEL_EXIT)) || o.code() == Some(1);
            if bad {
                let n = (shm2.get(SHM_N) as usize).min(MAX_CHOICES);
                Some((0..n).map(|i| shm2.get(SHM_BASE + i)).collect())
            } else {
                None
            }
        };
        if fails(&choices).is_none() {
            // Damage done by an earlier case may have ended it (a memory error does not strike at once):
            // a worker is a pure function of its arguments, so run it again from the start.
            let again = format!("{work}/shm-again");
            let shm3 = Shm::open(&again, true);
            let seed = seed.to_string();
            let idx = c.idx.to_string();
            let n = WORKERS_PER_PROFILE.to_string();
            let o = Command::new(&bin)
                .args(["worker", p.id, "--idx", &idx, "--n", &n, "--seed", &seed, "--tier", &tier])
                .args(["--shm", &again, "--hashes", &format!("{work}/hashes-again"), "--deadline", &deadline.min(300).to_string()])
                .stdin(Stdio::null())
                .output();
            if let Ok(o) = o {
                let text = String::from_utf8_lossy(&o.stderr).to_string();
                let memory = text.contains("memory allocation of");
                if crash && !memory && matches!(o.status.signal(), Some(4 | 6 | 7 | 8 | 11)) {
                    let si = shm3.get(SHM_SUB) as usize;
                    let n = (shm3.get(SHM_N) as usize).min(MAX_CHOICES);
                    viols.push(Viol {
                        sub: p.subs.get(si).map(|s| s.name).unwrap_or("?").to_string(),
                        profile: c.profile.to_string(),
                        choices: (0..n).map(|i| shm3.get(SHM_BASE + i)).collect(),
                        msg: esc(&format!("the process was ended by {} by something an earlier case left behind: {}", o.status, clip(text.trim(), 300))),
                        desc: "\"the case in which it ended; the whole worker is the reproduction\"".into(),
                        worker: Some(format!("--idx {idx} --n {} --seed {seed} --tier {tier}", WORKERS_PER_PROFILE)),
                        idx: c.idx,
                    });
                    continue;
                }
            }
            eprintln!("harness error: worker ended with {status} but the case does not reproduce: {err}");
            errors += 1;
            continue;
        }
        // one violation per sub-check is reported, so one of them is made small and the rest are kept as met
        let first = !viols.iter().any(|v| v.sub == sub);
        let budget = if c.hung || !first { 0 } else if fuel { 20 } else { 300 };
        let best = shrink(choices, &mut fails, budget, Duration::from_secs(40));
        let what = if c.hung {
            format!("the case does not end: it was stopped after {} s of processor time", HANG_CPU)
        } else if fuel {
            "run-away: the case executed more comparisons than any terminating case needs".to_string()
        } else {
            format!("the process was ended by {} {}", status, clip(err.trim(), 300))
        };
        let _ = std::fs::write(&cf, choices_str(&best));
        let desc = Command::new(&bin)
            .args(["case", p.id, "--sub", sub, "--choices", &cf, "--desc"])
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .output()
            .map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string())
            .unwrap_or_default();
        viols.push(Viol {
            sub: sub.to_string(),
            profile: c.profile.to_string(),
            choices: best,
            msg: esc(&what),
            desc: esc(&desc),
            worker: None,
            idx: c.idx,
        });
    }

    // a failure that needs the cases before it (state kept between calls) does not show on its own:
    // then the whole worker, which is a pure function of its arguments, is the reproduction
    for v in viols.iter_mut().filter(|v| v.worker.is_none()) {
        let cf = format!("{work}/alone");
        let _ = std::fs::write(&cf, choices_str(&v.choices));
        let o = Command::new(if v.profile == "debug" { &dbg } else { &me })
            .args(["case", p.id, "--sub", &v.sub, "--choices", &cf, "--quiet"])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        if matches!(o, Ok(st) if st.success()) {
            v.worker = Some(format!("--idx {} --n {} --seed {seed} --tier {tier}", v.idx, WORKERS_PER_PROFILE));
        }
    }

    // known findings: only those listed in the committed file count
    let known_txt = std::fs::read_to_string(get("--known")).unwrap_or_default();
    let mut known_json: Vec<String> = Vec::new();
    for (k, fails) in &known {
        let listed = known_txt.lines().find(|l| l.starts_with("finding:") && l.contains(&format!("property={}", p.id)) && l.contains(&format!("id={k} ")));
        match (fails, listed) {
            (Some(_), Some(l)) => {
                println!("KNOWN-FINDING: property={} {}", p.id, l.split_once(&format!("id={k} ")).map(|x| x.1).unwrap_or(k));
                known_json.push(esc(k));
            }
            (Some(m), None) => viols.push(Viol {
                sub: format!("known:{k}"),
                profile: "release".into(),
                choices: vec![],
                msg: m.clone(),
                desc: "\"\"".into(),
                worker: Some(String::new()),
                idx: 0,
            }),
            _ => {}
        }
    }

    // distinct non-trivial cases over all workers
    let mut all: HashSet<u64> = HashSet::new();
    for profile in ["release", "debug"] {
        for i in 0..WORKERS_PER_PROFILE {
            if let Ok(b) = std::fs::read(format!("{work}/hashes-{profile}-{i}")) {
                for ch in b.chunks_exact(8) {
                    all.insert(u64::from_le_bytes(ch.try_into().unwrap()));
                }
            }
        }
    }

    // report violations: one per sub-check, the simplest
    viols.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    let mut reported: Vec<String> = Vec::new();
    let replays = get("--replays");
    let mut vj: Vec<String> = Vec::new();
    for v in &viols {
        if reported.contains(&v.sub) {
            continue;
        }
        reported.push(v.sub.clone());
        let h = hash_bytes(format!("{}{}{:?}", p.id, v.sub, v.choices).as_bytes()) & 0xffff_ffff;
        let path = format!("{}/{}-{}-{:08x}.json", replays, p.id, v.sub.replace(':', "_"), h);
        let _ = std::fs::create_dir_all(&replays);
        let body = format!(
            "{{\"property\": \"{}\", \"sub\": \"{}\", \"profile\": \"{}\", \"message\": {}, \"case\": {}, \"worker\": \"{}\", \"choices\": \"{}\"}}\n",
            p.id,
            v.sub,
            v.profile,
            v.msg,
            v.desc,
            v.worker.as_deref().unwrap_or(""),
            choices_str(&v.choices)
        );
        let _ = std::fs::write(&path, &body);
        println!("violation in {}/{} [{}]: {}", p.id, v.sub, v.profile, v.msg);
        println!("  case: {}", clip(&v.desc, 3000));
        println!("VIOLATION property={} replay={}", p.id, path);
        vj.push(esc(&path));
    }

    // samples written out
    let mut per_sub: BTreeMap<String, usize> = BTreeMap::new();
    let mut sj: Vec<String> = Vec::new();
    for (sub, ch, bin) in &samples {
        let k = per_sub.entry(sub.clone()).or_insert(0);
        if *k >= 2 {
            continue;
        }
        let cf = format!("{work}/sample-choices");
        let _ = std::fs::write(&cf, ch);
        if let Ok(o) = Command::new(bin).args(["case", p.id, "--sub", sub, "--choices", &cf, "--desc"]).stdin(Stdio::null()).output() {
            let txt = String::from_utf8_lossy(&o.stdout).trim().to_string();
            if !txt.is_empty() {
                *k += 1;
                sj.push(format!("{{\"sub\": {}, \"case\": {}}}", esc(sub), esc(&clip(&txt, 1200))));
            }
        }
    }
    if sj.is_empty() {
        for (sub, ch, _) in samples.iter().take(2) {
            sj.push(format!("{{\"sub\": {}, \"choices\": {}}}", esc(sub), esc(ch)));
        }
    }
    let subj: Vec<String> = subs
        .iter()
        .map(|(k, v)| {
            let lab: Vec<String> = labels.get(k).map(|m| m.iter().map(|(l, c)| format!("{}: {}", esc(l), c)).collect()).unwrap_or_default();
            let mode = p.subs.iter().find(|s| s.name == k).map(|s| if s.mode == Mode::Exhaustive { "exhaustive enumeration" } else { "random + coverage-guided mutation" }).unwrap_or("?");
            format!(
                "{}: {{\"mode\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"mutated_from_corpus\": {}, \"corpus\": {}, \"coverage_features\": {}, \"max_comparisons_in_a_case\": {}, \"cut_by_deadline\": {}, \"classes\": {{{}}}}}",
                esc(k), esc(mode), v.0, v.1, v.3, v.4, v.5, v.2, v.6, lab.join(", ")
            )
        })
        .collect();
    let truncated = subs.values().any(|v| v.6);
    let ev = format!(
        "{{\n\"property\": \"{}\",\n\"tier\": \"{}\",\n\"seed\": {},\n\"level\": \"{}\",\n\"coverage\": {{\n  \"evaluations\": {},\n  \"nontrivial_evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"sub_checks\": {{{}}},\n  \"instrumented_edges_hit\": {},\n  \"instrumented_edges\": {},\n  \"cut_by_deadline\": {},\n  \"known_findings_reproduced\": [{}],\n  \"samples\": [{}]\n}},\n\"assumptions\": [{}],\n\"violations\": {},\n\"violation_replays\": [{}],\n\"wall_s\": {:.1}\n}}\n",
        p.id,
        tier,
        seed,
        level(p.id),
        evals,
        nontrivial,
        all.len(),
        esc(p.rule),
        subj.join(", "),
        edges.0,
        edges.1,
        truncated,
        known_json.join(", "),
        sj.join(", "),
        p.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", "),
        reported.len(),
        vj.join(", "),
        t0.elapsed().as_secs_f64()
    );
    if std::fs::write(get("--evidence"), ev).is_err() {
        eprintln!("harness error: cannot write evidence");
        errors += 1;
    }
    println!(
        "{}: {} cases, {} non-trivial ({} distinct), {} of {} edges, {:.1} s",
        p.id,
        evals,
        nontrivial,
        all.len(),
        edges.0,
        edges.1,
        t0.elapsed().as_secs_f64()
    );
    let _ = profile_name();
    if !reported.is_empty() {
        1
    } else if errors > 0 {
        2
    } else {
        0
    }
}
