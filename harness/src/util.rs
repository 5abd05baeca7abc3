use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Duration;

/// What formatting has to yield.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res { Text(String), NoZero, Oob, Oom }

pub const ALLOC: bool = cfg!(feature = "alloc");

// ---- memory and time limits -------------------------------------------------------------------

struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
const LIMIT: usize = 3 << 30;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIVE.fetch_add(l.size(), Relaxed) + l.size() > LIMIT && !DEAD.swap(true, SeqCst) {
            die("does not stay within memory");
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Count = Count;

static DEAD: AtomicBool = AtomicBool::new(false);
static TICK: AtomicU64 = AtomicU64::new(0);
static EVALS: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);
static CASE: Mutex<String> = Mutex::new(String::new());
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);

pub fn trace_to(path: &str) {
    *TRACE.lock().unwrap() = Some(std::fs::File::create(path).unwrap());
}

fn die(what: &str) -> ! {
    let case = CASE.try_lock().map(|c| c.clone()).unwrap_or_default();
    println!("{{\"evaluations\": {}, \"distinct\": 0, \"samples\": [], \"failure\": {{\"case\": {}, \"what\": {}}}}}",
        EVALS.load(Relaxed), json(&case), json(what));
    std::process::exit(0);
}

pub fn install() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST_PANIC.lock() { *l = i.to_string().replace('\n', " "); }
    }));
    if cfg!(miri) { return }
    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Relaxed);
            if BUSY.load(Relaxed) && t == last.0 { last.1 += 1 } else { last = (t, 0) }
            if last.1 >= 20 { die("does not terminate (10 s)") }
        }
    });
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c == '\u{7f}' => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---- the run ------------------------------------------------------------------------------------

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    failure: Option<(String, String)>,
    /// when to stop and report what was run so far
    pub deadline: Option<std::time::Instant>,
}

impl Cx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Cx { rng: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03), thorough,
             distinct: HashSet::new(), samples: vec![], failure: None, deadline: None }
    }
    pub fn failed(&self) -> bool { self.failure.is_some() }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn fail(&mut self, case: String, what: String) {
        if self.failure.is_none() { self.failure = Some((case, what)); }
    }
    pub fn seen(&mut self, key: u64, nontrivial: bool) { if nontrivial { self.distinct.insert(key); } }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        let n = EVALS.load(Relaxed);
        if self.samples.len() < 6 && (n % 997 == 5 || n % 7919 == 11) { let s = s(); self.samples.push(s); }
    }
    /// Runs `f`, the code under test, as the case `case`.
    pub fn guard<R>(&mut self, case: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
        if self.deadline.is_some_and(|d| std::time::Instant::now() > d) {
            self.report();
            std::process::exit(0);
        }
        EVALS.fetch_add(1, Relaxed);
        TICK.fetch_add(1, Relaxed);
        let c = case();
        if let Some(f) = TRACE.lock().unwrap().as_mut() {
            use std::io::Seek;
            let _ = f.set_len(0); let _ = f.rewind(); let _ = f.write_all(c.as_bytes());
        }
        *CASE.lock().unwrap() = c;
        BUSY.store(true, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        BUSY.store(false, Relaxed);
        r.map_err(|_| LAST_PANIC.lock().unwrap().clone())
    }
    pub fn report(&self) {
        let mut s = String::new();
        for (i, x) in self.samples.iter().enumerate() {
            if i > 0 { s.push_str(", "); }
            s.push_str(&json(x));
        }
        let f = match &self.failure {
            None => "null".to_string(),
            Some((c, w)) => format!("{{\"case\": {}, \"what\": {}}}", json(c), json(w)),
        };
        println!("{{\"evaluations\": {}, \"distinct\": {}, \"samples\": [{}], \"failure\": {}}}",
            EVALS.load(Relaxed), self.distinct.len(), s, f);
    }
}

pub fn hash(s: &str, n: u128) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes().chain(n.to_le_bytes()) { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}

// ---- literals of the code under test ---------------------------------------------------------------

#[derive(Default)]
pub struct Dict { pub ints: Vec<u128>, pub chars: Vec<char>, pub strs: Vec<String> }
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> &'static Dict { DICT.get_or_init(Dict::default) }

/// One literal a line: `i 400`, `c 1488`, `s text`.
pub fn read_dict(path: &str) {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some((k, v)) = l.split_once(' ') else { continue };
        match k {
            "i" => d.ints.extend(v.parse::<u128>().ok()),
            "c" => d.chars.extend(v.parse().ok().and_then(char::from_u32)),
            _ => d.strs.push(v.to_string()),
        }
    }
    let _ = DICT.set(d);
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
    pub fn ch(&mut self) -> char {
        if !dict().chars.is_empty() && self.chance(12) { return dict().chars[self.below(dict().chars.len())] }
        match self.below(8) {
            0 | 1 => (b'a' + self.below(26) as u8) as char,
            2 => ['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}'][self.below(10)],
            3 => char::from_u32(0x80 + self.below(0x780) as u32).unwrap(),
            4 | 5 => char::from_u32(0x800 + self.below(0xcfff) as u32).unwrap(),
            _ => char::from_u32(0x10000 + self.below(0x100000) as u32).unwrap(),
        }
    }
    pub fn text(&mut self, max: usize) -> String {
        if !dict().strs.is_empty() && self.chance(12) {
            return dict().strs[self.below(dict().strs.len())].chars().take(max).collect()
        }
        let n = self.below(max + 1);
        (0..n).map(|_| self.ch()).collect()
    }
}

/// Nominals worth formatting, smallest first, each at most `cap`.
pub fn values(rng: &mut Rng, cap: u128, dense: u128, random: usize) -> Vec<u128> {
    let mut v: Vec<u128> = (0..=dense.min(cap)).collect();
    let mut x: Vec<u128> = vec![];
    let around = |x: &mut Vec<u128>, c: u128, r: u128| for d in 0..=r {
        x.push(c.saturating_add(d)); x.push(c.saturating_sub(d));
    };
    for b in [8, 16, 32, 64, 128] { around(&mut x, if b == 128 { u128::MAX } else { 1 << b }, 2); }
    for k in 0..39 {
        let p = 10u128.pow(k);
        around(&mut x, p, 2);
        for m in 2..10 { if let Some(y) = p.checked_mul(m) { around(&mut x, y, 1); } }
        for j in 0..k { for (a, b) in [(1, 1), (1, 5), (3, 1), (9, 9), (2, 4)] {
            if let Some(y) = p.checked_mul(a).and_then(|y| y.checked_add(10u128.pow(j) * b)) { x.push(y); }
        } }
    }
    for k in 0..128 { around(&mut x, 1 << k, 1); }
    // small in the low bits of a narrower type
    for w in [8, 16, 32, 64] { for k in 0..20 {
        let p = 10u128.pow(k);
        if let Some(y) = p.checked_mul(1 << w) { for d in [0, 1, 7, 12, p, 3 * p + 5] { x.push(y.saturating_add(d)); } }
    } }
    for b in [2u128, 3, 12, 14, 16, 24, 26, 46, 47, 100, 400, 1_000_000] {
        let (mut p, mut s) = (b, 0u128);
        for _ in 0..40 {
            around(&mut x, p, 1);
            s = match s.checked_add(p) { Some(s) => s, None => break };
            around(&mut x, s, 2);
            p = match p.checked_mul(b) { Some(p) => p, None => break };
        }
    }
    let d = &dict().ints;
    for l in d { if *l > dense { around(&mut x, *l, 1); } }
    for _ in 0..if d.is_empty() { 0 } else { random / 3 } {
        let (a, b, k) = (d[rng.below(d.len())], d[rng.below(d.len())], rng.below(39) as u32);
        let y = match rng.below(5) {
            0 => a.checked_add(b),
            1 => a.checked_mul(b),
            2 => 10u128.pow(k).checked_mul(a).and_then(|y| y.checked_add(b)),
            3 => 10u128.pow(k).checked_add(a),
            _ => a.checked_mul(1 + (rng.next() >> (48 + k % 16)) as u128).and_then(|y| y.checked_add(b)),
        };
        if let Some(y) = y { around(&mut x, y, rng.below(2) as u128); }
    }
    for _ in 0..random {
        match rng.below(5) {
            0 | 1 => { let b = rng.below(128); x.push(rng.u128() >> b) }
            4 => {
                let w = [8, 16, 32, 64][rng.below(4)];
                let b = rng.below(64);
                x.push((rng.u128() >> (64 + b)).saturating_mul(1 << w).saturating_add(rng.below(70) as u128))
            }
            2 => { // decimal digits with many zeros
                let len = 1 + rng.below(39);
                let mut n = 0u128;
                let z = 1 + rng.below(5);
                for _ in 0..len {
                    let d = if rng.below(z + 1) > 0 { 0 } else { match rng.below(3) { 0 => 1, _ => 1 + rng.below(9) as u128 } };
                    n = match n.checked_mul(10).and_then(|n| n.checked_add(d)) { Some(n) => n, None => break };
                }
                x.push(n)
            }
            _ => { // four-digit groups, each zero, small or full
                let len = 1 + rng.below(10);
                let mut n = 0u128;
                for _ in 0..len {
                    let g = match rng.below(6) { 0 | 1 => 0, 2 => [1, 10, 100, 1000][rng.below(4)],
                        3 => [11, 101, 1001, 110, 1010, 1100][rng.below(6)], 4 => 1 + rng.below(9) as u128, _ => rng.below(10000) as u128 };
                    n = match n.checked_mul(10_000).and_then(|n| n.checked_add(g)) { Some(n) => n, None => break };
                }
                x.push(n)
            }
        }
    }
    if cap < u128::MAX && cap > 0 {
        for i in 0..x.len() { if x[i] > cap { x[i] %= cap + 1; } }
        around(&mut x, cap, 3);
        x.retain(|n| *n <= cap);
    }
    x.sort_unstable();
    x.dedup();
    x.retain(|n| *n > dense);
    v.extend(x);
    v
}
