//! Monitor runtime shared by every check: seeded workload generation, online verdicts,
//! panic capture, known-finding matching, evidence and replay files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed ^ 0x9E37_79B9_7F4A_7C15;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *v = z ^ (z >> 31);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 { ((self.u64() as u128) << 64) | self.u64() as u128 }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % (n as u64)) as usize }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.u64() % ((hi - lo + 1) as u64)) as i64 }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    /// Uniform in [0, 1).
    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.unit() }
    pub fn sign(&mut self) -> f64 { if self.bool() { 1.0 } else { -1.0 } }
    /// Log-uniform magnitude in [lo, hi], random sign.
    pub fn mag(&mut self, lo: f64, hi: f64) -> f64 {
        let e = self.range(lo.ln(), hi.ln());
        self.sign() * e.exp()
    }
    /// A moderate value from mixed classes: zeros, ones, small integers, dyadics, fractions, larger magnitudes.
    pub fn val(&mut self) -> f64 {
        match self.below(10) {
            0 => 0.0,
            1 => self.sign(),
            2 | 3 => self.int(-9, 9) as f64,
            4 => self.int(-64, 64) as f64 / 8.0,
            5 | 6 => self.range(-1.0, 1.0),
            7 => self.range(-10.0, 10.0),
            8 => self.mag(1e-3, 1e3),
            _ => self.int(-1000, 1000) as f64,
        }
    }
    /// As `val` but never zero (magnitude at least 1e-3).
    pub fn nz(&mut self) -> f64 {
        loop {
            let v = self.val();
            if v.abs() >= 1e-3 { return v; }
        }
    }
    /// Small integer value.
    pub fn ival(&mut self, m: i64) -> f64 { self.int(-m, m) as f64 }
    pub fn arr<const N: usize>(&mut self, mut f: impl FnMut(&mut Rng) -> f64) -> [f64; N] { std::array::from_fn(|_| f(self)) }
    /// Values of mixed classes, sometimes related: equal or opposite components, sparse ones, a common large or small scale.
    pub fn vals<const N: usize>(&mut self) -> [f64; N] {
        let mut v: [f64; N] = self.arr(|r| r.val());
        if N == 0 { return v; }
        match self.below(16) {
            0 => { let (i, j) = (self.below(N), self.below(N)); v[i] = v[j]; }
            1 => { let (i, j) = (self.below(N), self.below(N)); v[i] = -v[j]; }
            2 => { let k = self.below(N); for i in 0..N { if i != k { v[i] = 0.0; } } }
            3 => { let k = self.below(N); v[k] = 0.0; }
            4 => { let s = self.mag(1e-4, 1e4).abs(); for x in v.iter_mut() { *x *= s; } }
            5 => { let x = self.val(); v = [x; N]; }
            6 => { let s = self.sign(); for x in v.iter_mut() { *x = s * x.abs(); } }
            7 => { let (i, j) = (self.below(N), self.below(N)); v[i] = v[j] * (1.0 + self.mag(1e-9, 1e-3)); }
            _ => {}
        }
        v
    }
    pub fn ivals<const N: usize>(&mut self, m: i64) -> [f64; N] { self.arr(|r| r.ival(m)) }
    /// A unit direction: axes, diagonals and general directions.
    pub fn dir<const N: usize>(&mut self) -> [f64; N] {
        loop {
            let mut v = [0.0; N];
            match self.below(8) {
                0 => { let i = self.below(N); v[i] = self.sign(); }
                1 => { for x in v.iter_mut() { *x = self.int(-2, 2) as f64; } }
                2 => { for x in v.iter_mut() { *x = self.range(-1.0, 1.0); } let i = self.below(N); v[i] = 0.0; }
                3 => { let m = self.mag(1e-9, 1e-2).abs(); for x in v.iter_mut() { *x = m * self.range(-1.0, 1.0); } let i = self.below(N); v[i] = self.sign(); }
                _ => { for x in v.iter_mut() { *x = self.range(-1.0, 1.0); } }
            }
            let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if n > 1e-2 {
                for x in v.iter_mut() { *x /= n; }
                return v;
            }
        }
    }
    /// An angle in radians: special angles, tiny ones, general ones up to a few turns.
    pub fn angle(&mut self) -> f64 {
        use std::f64::consts::PI;
        match self.below(8) {
            0 => self.int(-8, 8) as f64 * PI / 4.0,
            1 => self.int(-12, 12) as f64 * PI / 6.0,
            2 => self.mag(1e-9, 1e-2),
            3 => self.range(-20.0, 20.0),
            4 => self.int(-4, 4) as f64 * PI / 2.0 + self.mag(1e-9, 1e-2),
            _ => self.range(-PI, PI),
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
}

// ---------------------------------------------------------------- monitor context
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// The watchdog's view of the run: case number while one is executing (0 otherwise) and its name.
static NOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static NOW_TAG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// A case takes microseconds; one that runs for two minutes of the watchdog's own clock does not return,
/// so the operation has no result at all: that is a violation, not a missing answer.
const HANG_TICKS: u32 = 240;
fn watchdog(prop: &'static str, seed: u64, thorough: bool) {
    std::thread::spawn(move || {
        let (mut last, mut idle) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = NOW.load(std::sync::atomic::Ordering::Relaxed);
            if now == 0 || now != last { last = now; idle = 0; continue; }
            idle += 1;
            if idle < HANG_TICKS { continue; }
            let tag = NOW_TAG.lock().map(|t| t.clone()).unwrap_or_default();
            let (dir, tier) = (format!("{}/evidence", verif_dir()), if thorough { "thorough" } else { "quick" });
            let _ = std::fs::create_dir_all(format!("{}/replay", dir));
            let path = format!("{}/replay/{}-seed{}.txt", dir, prop, seed);
            let t = format!("property {}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} ./run.sh {} {}\n\nevent no-result: case {} ({}) does not return\n", prop, seed, tier, prop, tier, now, tag);
            let _ = std::fs::write(&path, &t);
            let _ = std::fs::write(format!("{}/{}.json", dir, prop), format!("{{\n \"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": \"run ended by the watchdog: case {} ({}) does not return\", \"samples\": [\"{}\"]}},\n \"assumptions\": [], \"wall_s\": 120.0, \"violations\": 1\n}}\n", prop, tier, seed, now, now, now, esc(&tag), esc(&tag)));
            println!("  no-result: case {} ({}) does not return", now, tag);
            println!("VIOLATION property={} replay={}", prop, path);
            std::process::exit(1);
        }
    });
}

/// A cheap hasher: the keys are short names and already mixed numbers.
#[derive(Default)]
struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(w)); } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x51_7c_c1_b7_27_22_0a_95); }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 32) }
}
type Fx = std::hash::BuildHasherDefault<FxH>;

struct Viol {
    count: u64,
    details: Vec<String>,
}

pub struct Cx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub margins: bool, margin: BTreeMap<&'static str, f64>, mini: usize,
    pub rng: Rng,
    tag: String,
    rule: String,
    events: HashMap<&'static str, u64, Fx>,
    tags: BTreeMap<String, u64>,
    seen: HashSet<u64, Fx>,
    cases: u64,
    checks: u64,
    samples: Vec<String>,
    sample_tags: HashMap<String, u32>,
    viols: BTreeMap<String, Viol>,
    known: Vec<(String, String)>,
    known_hits: BTreeMap<String, (u64, String)>,
    required: Vec<&'static str>,
    assumptions: Vec<String>,
    extra: Vec<(String, String)>,
    t0: Instant,
}

pub fn hash_bits(it: impl IntoIterator<Item = u64>) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in it {
        h ^= x;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    }
    h
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o
}

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

impl Cx {
    pub fn new(prop: &'static str, rule: &str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        std::panic::set_hook(Box::new(|info| {
            let s = if cfg!(miri) { String::new() } else { info.to_string() };
            if NOW.load(std::sync::atomic::Ordering::Relaxed) == 0 { eprintln!("panic outside a case: {}", s); }
            LAST_PANIC.with(|p| *p.borrow_mut() = s);
        }));
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("known: ") {
                    let mut it = r.splitn(3, ' ');
                    let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                    if p == format!("property={}", prop) {
                        if let Some(k) = k.strip_prefix("key=") { known.push((k.to_string(), w.to_string())); }
                    }
                }
            }
        }
        if !cfg!(miri) { watchdog(prop, seed, thorough); }
        let h = hash_bits(prop.bytes().map(|b| b as u64).chain([seed]));
        Cx {
            prop, seed, thorough, margins: std::env::var("VERIF_MARGINS").is_ok(), margin: BTreeMap::new(), mini: std::env::var("VERIF_MINI").ok().and_then(|s| s.parse().ok()).unwrap_or(0), rng: Rng::new(h), tag: String::new(), rule: rule.into(), events: HashMap::default(), tags: BTreeMap::new(),
            seen: HashSet::default(), cases: 0, checks: 0, samples: vec![], sample_tags: HashMap::new(), viols: BTreeMap::new(), known,
            known_hits: BTreeMap::new(), required: vec![], assumptions: vec![], extra: vec![], t0: Instant::now(),
        }
    }
    /// Repetitions; `VERIF_MINI` bounds them for runs under an interpreter.
    pub fn n(&self, quick: usize) -> usize { if self.mini > 0 { quick.min(self.mini) } else { quick * self.scale() * if self.thorough { 40 } else { 1 } } }
    /// Per-property workload factor: a quick run takes a few seconds to a quarter of a minute.
    fn scale(&self) -> usize { match self.prop { "C21" => 2, "C02" | "C26" => 4, "C10" | "C25" | "C06" => 8, "C16" | "C28" | "C03" | "C07" => 10, _ => 20 } }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
    pub fn extra(&mut self, k: &str, v: impl std::fmt::Display) { self.extra.push((k.into(), v.to_string())); }
    /// Names of events that must have been observed for a conclusive run.
    pub fn require(&mut self, evs: &[&'static str]) { self.required.extend_from_slice(evs); }

    /// Runs one case; a panic inside is a violation of event `panic`.
    pub fn case(&mut self, tag: &str, key: impl IntoIterator<Item = u64>, nontrivial: bool, desc: impl Fn() -> String, body: impl FnOnce(&mut Cx)) {
        self.cases += 1;
        self.tag.clear();
        self.tag.push_str(tag);
        *self.tags.entry(tag.to_string()).or_insert(0) += 1;
        if nontrivial && self.seen.len() < 20_000_000 {
            let h = hash_bits(tag.bytes().map(|b| b as u64).chain(key));
            self.seen.insert(h);
        }
        let k = self.sample_tags.entry(tag.to_string()).or_insert(0);
        if *k < 1 && self.samples.len() < 40 && nontrivial {
            *k += 1;
            let d = desc();
            self.samples.push(format!("{}: {}", tag, d));
        }
        if !cfg!(miri) {
            if let Ok(mut t) = NOW_TAG.try_lock() { t.clear(); t.push_str(tag); }
            NOW.store(self.cases, std::sync::atomic::Ordering::Relaxed);
        }
        let r = catch_unwind(AssertUnwindSafe(|| body(self)));
        NOW.store(0, std::sync::atomic::Ordering::Relaxed);
        if r.is_err() {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            let d = format!("unexpected panic [{}] on {}", m.replace('\n', " "), desc());
            self.record("panic", d);
        }
    }
    fn record(&mut self, ev: &str, detail: String) {
        let key = format!("{} @ {}", ev, self.tag);
        let e = self.viols.entry(key).or_insert(Viol { count: 0, details: vec![] });
        e.count += 1;
        if e.details.len() < 3 { e.details.push(detail); }
    }
    /// One observed event with its verdict.
    pub fn ok(&mut self, ev: &'static str, holds: bool, detail: impl FnOnce() -> String) {
        self.checks += 1;
        *self.events.entry(ev).or_insert(0) += 1;
        if !holds {
            let d = detail();
            self.record(ev, d);
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, ev: &'static str, got: T, want: T, ctx: impl FnOnce() -> String) {
        let h = got == want;
        self.ok(ev, h, || format!("got {:?}, want {:?}; {}", got, want, ctx()));
    }
    /// Absolute closeness of two slices.
    pub fn near(&mut self, ev: &'static str, got: &[f64], want: &[f64], tol: f64, ctx: impl FnOnce() -> String) {
        let h = got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (a - b).abs() <= tol);
        if self.margins && h && tol > 0.0 {
            let m = got.iter().zip(want).map(|(a, b)| (a - b).abs() / tol).fold(0.0, f64::max);
            let e = self.margin.entry(ev).or_insert(0.0);
            if m > *e { *e = m; }
        }
        self.ok(ev, h, || format!("got {:?}, want {:?} (tol {:e}); {}", got, want, tol, ctx()));
    }
    /// Expects a panic.
    pub fn panics(&mut self, ev: &'static str, ctx: impl FnOnce() -> String, f: impl FnOnce()) {
        let r = catch_unwind(AssertUnwindSafe(f));
        self.ok(ev, r.is_err(), || format!("expected a panic; {}", ctx()));
    }
    /// A property event for which a defect of the unchanged code is on record: `matches` says the observed
    /// behaviour is exactly the recorded one. Any other failure is a violation.
    pub fn known(&mut self, key: &'static str, ev: &'static str, holds: bool, matches: bool, detail: impl FnOnce() -> String) {
        if holds || !matches || !self.known.iter().any(|(k, _)| k == key) {
            self.ok(ev, holds, detail);
            return;
        }
        self.checks += 1;
        *self.events.entry(ev).or_insert(0) += 1;
        let e = self.known_hits.entry(key.to_string()).or_insert((0, String::new()));
        e.0 += 1;
        if e.0 == 1 { e.1 = detail(); }
    }

    /// Merge verdicts of a child monitor (used by checks that run several processes).
    pub fn finish(mut self) -> ! {
        let low = std::env::var("VERIF_MARGINS").ok().and_then(|s| s.parse::<f64>().ok()).filter(|x| *x < 1.0).unwrap_or(0.2);
        for (e, m) in &self.margin { if *m > low { eprintln!("margin {} {} {:.2e}", self.prop, e, m); } }
        let missing: Vec<_> = self.required.iter().filter(|e| !self.events.contains_key(*e)).cloned().collect();
        let nviol: u64 = self.viols.values().map(|v| v.count).sum();
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(format!("{}/replay", dir));
        let mut evs: Vec<_> = self.events.iter().collect();
        evs.sort();
        let mut j = String::new();
        let tier = if self.thorough { "thorough" } else { "quick" };
        let _ = write!(j, "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", self.prop, tier, self.seed);
        let _ = write!(j, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"monitored_events\": {},\n", self.cases, self.seen.len(), esc(&self.rule), self.checks);
        let _ = write!(j, "  \"events\": {{");
        for (i, (k, v)) in evs.iter().enumerate() { let _ = write!(j, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(k), v); }
        let _ = write!(j, "}},\n  \"cases_per_instantiation\": {{");
        for (i, (k, v)) in self.tags.iter().enumerate() { let _ = write!(j, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(k), v); }
        let _ = write!(j, "}},\n");
        for (k, v) in &self.extra { let _ = write!(j, "  \"{}\": \"{}\",\n", esc(k), esc(v)); }
        let _ = write!(j, "  \"known_findings_observed\": {{");
        for (i, (k, v)) in self.known_hits.iter().enumerate() { let _ = write!(j, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(k), v.0); }
        let _ = write!(j, "}},\n  \"samples\": [");
        for (i, s) in self.samples.iter().enumerate() { let _ = write!(j, "{}\"{}\"", if i > 0 { ",\n   " } else { "" }, esc(s)); }
        let _ = write!(j, "]\n }},\n \"assumptions\": [");
        for (i, s) in self.assumptions.iter().enumerate() { let _ = write!(j, "{}\"{}\"", if i > 0 { ", " } else { "" }, esc(s)); }
        let _ = write!(j, "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.t0.elapsed().as_secs_f64(), nviol);
        std::fs::write(format!("{}/{}.json", dir, self.prop), j).expect("write evidence");
        for (k, (n, d)) in &self.known_hits {
            let w = self.known.iter().find(|(kk, _)| kk == k).map(|x| x.1.clone()).unwrap_or_default();
            println!("KNOWN-FINDING: property={} key={} {} (observed {} times, e.g. {})", self.prop, k, w, n, d.replace('\n', " "));
        }
        println!("{}: {} cases ({} distinct non-trivial), {} monitored events of {} kinds, {} violations, {:.1}s", self.prop, self.cases, self.seen.len(), self.checks, self.events.len(), nviol, self.t0.elapsed().as_secs_f64());
        if nviol > 0 {
            let path = format!("{}/replay/{}-seed{}.txt", dir, self.prop, self.seed);
            let mut t = format!("property {}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} ./run.sh {} {}\n\n", self.prop, self.seed, tier, self.prop, tier);
            for (k, v) in &self.viols {
                let _ = writeln!(t, "event {} violated {} times", k, v.count);
                for d in &v.details { let _ = writeln!(t, "   {}", d); }
            }
            std::fs::write(&path, &t).expect("write replay");
            for (k, v) in self.viols.iter().take(8) { println!("  {} x{}: {}", k, v.count, v.details[0].chars().take(600).collect::<String>()); }
            println!("VIOLATION property={} replay={}", self.prop, path);
            std::process::exit(1);
        }
        if !missing.is_empty() || self.checks == 0 {
            println!("INCONCLUSIVE property={}: required events never observed: {:?}", self.prop, missing);
            std::process::exit(2);
        }
        self.viols.clear();
        std::process::exit(0);
    }
}

pub mod cm;
// ---------------------------------------------------------------- helpers
pub fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
pub fn maxabs(v: &[f64]) -> f64 { v.iter().fold(0.0, |a, x| a.max(x.abs())) }

/// Hooks for the neutral statement test: nothing here depends on library internals.
pub mod refm {
    //! Independent reference model on plain arrays. Matrices are `m[col][row]`.
    pub type V3 = [f64; 3];
    pub fn dot<const N: usize>(a: &[f64; N], b: &[f64; N]) -> f64 { (0..N).map(|i| a[i] * b[i]).sum() }
    pub fn norm<const N: usize>(a: &[f64; N]) -> f64 { dot(a, a).sqrt() }
    pub fn add<const N: usize>(a: &[f64; N], b: &[f64; N]) -> [f64; N] { std::array::from_fn(|i| a[i] + b[i]) }
    pub fn sub<const N: usize>(a: &[f64; N], b: &[f64; N]) -> [f64; N] { std::array::from_fn(|i| a[i] - b[i]) }
    pub fn scale<const N: usize>(a: &[f64; N], s: f64) -> [f64; N] { std::array::from_fn(|i| a[i] * s) }
    pub fn unit<const N: usize>(a: &[f64; N]) -> [f64; N] { scale(a, 1.0 / norm(a)) }
    pub fn cross(a: &V3, b: &V3) -> V3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
    pub fn eye<const N: usize>() -> [[f64; N]; N] { std::array::from_fn(|c| std::array::from_fn(|r| if r == c { 1.0 } else { 0.0 })) }
    pub fn mv<const R: usize, const C: usize>(m: &[[f64; R]; C], v: &[f64; C]) -> [f64; R] {
        std::array::from_fn(|r| (0..C).map(|c| m[c][r] * v[c]).sum())
    }
    pub fn mm<const R: usize, const K: usize, const C: usize>(a: &[[f64; R]; K], b: &[[f64; K]; C]) -> [[f64; R]; C] {
        std::array::from_fn(|c| mv(a, &b[c]))
    }
    pub fn tr<const R: usize, const C: usize>(m: &[[f64; R]; C]) -> [[f64; C]; R] { std::array::from_fn(|r| std::array::from_fn(|c| m[c][r])) }
    pub fn flat<const R: usize, const C: usize>(m: &[[f64; R]; C]) -> Vec<f64> { m.iter().flat_map(|c| c.iter().copied()).collect() }
    /// Determinant by permutation expansion.
    pub fn det<const N: usize>(m: &[[f64; N]; N]) -> f64 {
        fn rec<const N: usize>(m: &[[f64; N]; N], c: usize, used: &mut [bool]) -> f64 {
            if c == N { return 1.0; }
            let mut s = 0.0;
            let mut sign = 1.0;
            for r in 0..N {
                if used[r] { continue; }
                if m[c][r] != 0.0 {
                    used[r] = true;
                    s += sign * m[c][r] * rec(m, c + 1, used);
                    used[r] = false;
                }
                sign = -sign;
            }
            s
        }
        rec(m, 0, &mut vec![false; N])
    }
    /// Inverse by Gauss-Jordan elimination with partial pivoting.
    pub fn inv<const N: usize>(m: &[[f64; N]; N]) -> Option<[[f64; N]; N]> {
        let mut a = tr(m); // a[row][col]
        let mut b = eye::<N>();
        for k in 0..N {
            let p = (k..N).max_by(|&i, &j| a[i][k].abs().total_cmp(&a[j][k].abs()))?;
            if a[p][k] == 0.0 { return None; }
            a.swap(k, p);
            b.swap(k, p);
            let d = a[k][k];
            for j in 0..N { a[k][j] /= d; b[k][j] /= d; }
            for i in 0..N {
                if i != k {
                    let f = a[i][k];
                    for j in 0..N { a[i][j] -= f * a[k][j]; b[i][j] -= f * b[k][j]; }
                }
            }
        }
        Some(tr(&b))
    }
    /// Rotation matrix about a unit axis (right-handed), Rodrigues' formula.
    pub fn rot3(axis: &V3, t: f64) -> [[f64; 3]; 3] {
        let e = eye::<3>();
        std::array::from_fn(|c| {
            let k = cross(axis, &e[c]);
            let d = axis[c];
            std::array::from_fn(|r| e[c][r] * t.cos() + k[r] * t.sin() + axis[r] * d * (1.0 - t.cos()))
        })
    }
    pub fn rot2(t: f64) -> [[f64; 2]; 2] { [[t.cos(), t.sin()], [-t.sin(), t.cos()]] }
    /// Hamilton product, scalar first.
    pub fn qmul(a: &[f64; 4], b: &[f64; 4]) -> [f64; 4] {
        [
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
        ]
    }
    pub fn qconj(a: &[f64; 4]) -> [f64; 4] { [a[0], -a[1], -a[2], -a[3]] }
    pub fn qrot(q: &[f64; 4], v: &V3) -> V3 {
        let r = qmul(&qmul(q, &[0.0, v[0], v[1], v[2]]), &qconj(q));
        [r[1], r[2], r[3]]
    }
    /// Affine matrix (homogeneous) from linear part and translation.
    pub fn affine<const N: usize, const M: usize>(l: &[[f64; N]; N], t: &[f64; N]) -> [[f64; M]; M] {
        std::array::from_fn(|c| std::array::from_fn(|r| {
            if c < N { if r < N { l[c][r] } else { 0.0 } } else if r < N { t[r] } else { 1.0 }
        }))
    }
    pub fn hom_point<const N: usize, const M: usize>(m: &[[f64; M]; M], p: &[f64; N]) -> [f64; N] {
        let v: [f64; M] = std::array::from_fn(|i| if i < N { p[i] } else { 1.0 });
        let r = mv(m, &v);
        std::array::from_fn(|i| r[i] / r[M - 1])
    }
    pub fn hom_vec<const N: usize, const M: usize>(m: &[[f64; M]; M], p: &[f64; N]) -> [f64; N] {
        let v: [f64; M] = std::array::from_fn(|i| if i < N { p[i] } else { 0.0 });
        let r = mv(m, &v);
        std::array::from_fn(|i| r[i])
    }

    // ---- complex reference
    #[derive(Copy, Clone, Debug, PartialEq)]
    pub struct Z(pub f64, pub f64);
    impl Z {
        pub fn add(self, o: Z) -> Z { Z(self.0 + o.0, self.1 + o.1) }
        pub fn sub(self, o: Z) -> Z { Z(self.0 - o.0, self.1 - o.1) }
        pub fn mul(self, o: Z) -> Z { Z(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0) }
        pub fn scale(self, s: f64) -> Z { Z(self.0 * s, self.1 * s) }
        pub fn div(self, o: Z) -> Z {
            let d = o.0 * o.0 + o.1 * o.1;
            let n = self.mul(Z(o.0, -o.1));
            Z(n.0 / d, n.1 / d)
        }
        pub fn abs(self) -> f64 { self.0.hypot(self.1) }
        pub fn arg(self) -> f64 { self.1.atan2(self.0) }
        pub fn exp(self) -> Z { let e = self.0.exp(); Z(e * self.1.cos(), e * self.1.sin()) }
        pub fn ln(self) -> Z { Z(self.abs().ln(), self.arg()) }
        pub fn sqrt(self) -> Z {
            if self == Z(0.0, 0.0) { return Z(0.0, 0.0); }
            let (r, t) = (self.abs().sqrt(), self.arg() / 2.0);
            Z(r * t.cos(), r * t.sin())
        }
        pub fn cosh(self) -> Z { Z(self.0.cosh() * self.1.cos(), self.0.sinh() * self.1.sin()) }
        pub fn sinh(self) -> Z { Z(self.0.sinh() * self.1.cos(), self.0.cosh() * self.1.sin()) }
        pub fn tanh(self) -> Z { self.sinh().div(self.cosh()) }
        pub fn cos(self) -> Z { Z(self.0.cos() * self.1.cosh(), -self.0.sin() * self.1.sinh()) }
        pub fn sin(self) -> Z { Z(self.0.sin() * self.1.cosh(), self.0.cos() * self.1.sinh()) }
        pub fn tan(self) -> Z { self.sin().div(self.cos()) }
        pub fn dist(self, o: Z) -> f64 { self.sub(o).abs() }
    }
}
