//! Case generation from recorded choices, parallel search, shrinking, isolation of crashes,
//! replay files and evidence.

use serde::{de::DeserializeOwned, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random numbers

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.upto(n.max(1) - 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        mix((h ^ b as u64).wrapping_mul(0x100_0000_01b3))
    })
}
pub fn hash_words(w: &[u64]) -> u64 {
    w.iter().fold(w.len() as u64, |h, x| mix(h ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
}

// ---------------------------------------------------------------- choice source

/// Source of choices: random (recording) or replaying a recorded/edited choice sequence.
pub struct Src {
    rng: Option<Rng>,
    prefix: Vec<u64>,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    /// scale of the case (1 quick, more in thorough)
    pub size: usize,
}
impl Src {
    pub fn random(seed: u64, size: usize) -> Self {
        Src { rng: Some(Rng::new(seed)), prefix: vec![], rec: vec![], spans: vec![], size }
    }
    pub fn replay(choices: &[u64], size: usize) -> Self {
        Src { rng: None, prefix: choices.to_vec(), rec: vec![], spans: vec![], size }
    }
    /// A value in 0..=max; `f` picks it when the source is random.
    pub fn draw_with(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => f(r).min(max),
            None => self.prefix.get(self.rec.len()).copied().unwrap_or(0).min(max),
        };
        self.rec.push(v);
        v
    }
    pub fn upto(&mut self, max: u64) -> u64 {
        self.draw_with(max, |r| r.upto(max))
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.upto(n.max(1) as u64 - 1) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw_with(1, |r| (r.below(den) < num) as u64) == 1
    }
    /// index by weight; shrinks to 0
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        self.draw_with(w.len() as u64 - 1, |r| {
            let mut x = r.below(total);
            for (i, wi) in w.iter().enumerate() {
                if x < *wi as u64 {
                    return i as u64;
                }
                x -= *wi as u64;
            }
            0
        }) as usize
    }
    /// signed value in -m..=m, shrinks to 0
    pub fn signed(&mut self, m: i64) -> i64 {
        unzig(self.draw_with(2 * m as u64, |r| r.upto(2 * m as u64)))
    }
    pub fn signed_with(&mut self, m: i64, f: impl FnOnce(&mut Rng) -> i64) -> i64 {
        unzig(self.draw_with(2 * m as u64, |r| zig(f(r).clamp(-m, m))))
    }
    /// A list; its random length comes from `len`, recorded as continue flags so that elements can
    /// be deleted while shrinking.
    pub fn list<T>(
        &mut self,
        cap: usize,
        len: impl FnOnce(&mut Rng) -> usize,
        mut f: impl FnMut(&mut Src, usize) -> T,
    ) -> Vec<T> {
        let n = self.rng.as_mut().map(|r| len(r).min(cap));
        let mut out = Vec::new();
        loop {
            let start = self.rec.len();
            let i = out.len();
            let more = i < cap
                && match n {
                    Some(n) => {
                        self.rec.push((i < n) as u64);
                        i < n
                    }
                    None => self.upto(1) == 1,
                };
            if !more {
                return out;
            }
            out.push(f(self, i));
            let end = self.rec.len();
            self.spans.push((start, end));
        }
    }
}
pub fn zig(v: i64) -> u64 {
    if v > 0 {
        2 * v as u64 - 1
    } else {
        (-v) as u64 * 2
    }
}
pub fn unzig(u: u64) -> i64 {
    if u % 2 == 1 {
        (u / 2 + 1) as i64
    } else {
        -((u / 2) as i64)
    }
}

// ---------------------------------------------------------------- coverage of one case

#[derive(Default)]
pub struct Cov {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub counts: Vec<(&'static str, u64)>,
    pub known: Vec<(String, String)>,
    pub verbose: bool,
}
impl Cov {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        for c in &mut self.counts {
            if c.0 == l {
                c.1 += n;
                return;
            }
        }
        self.counts.push((l, n));
    }
    /// A failure with a signature: known findings are noted, others fail the case.
    pub fn finding(&mut self, id: &str, key: &str, detail: String) -> Result<(), String> {
        if known_keys(id).iter().any(|k| k.0 == key) {
            if self.known.len() < 4 {
                self.known.push((key.to_string(), detail));
            }
            Ok(())
        } else {
            Err(detail)
        }
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("RCHECK_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// (key, description) of the known findings of a property.
fn known_keys(id: &str) -> &'static [(String, String)] {
    static K: Mutex<BTreeMap<String, &'static [(String, String)]>> = Mutex::new(BTreeMap::new());
    let mut k = K.lock().unwrap();
    if let Some(v) = k.get(id) {
        return v;
    }
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, key, d) = (it.next(), it.next(), it.next());
            if let (Some(p), Some(key), Some(d)) = (p, key, d) {
                if p == format!("property={id}") {
                    if let Some(key) = key.strip_prefix("key=") {
                        v.push((key.to_string(), d.to_string()));
                    }
                }
            }
        }
    }
    let v: &'static [(String, String)] = Box::leak(v.into_boxed_slice());
    k.insert(id.to_string(), v);
    v
}

// ---------------------------------------------------------------- checks

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Check: 'static {
    const ID: &'static str;
    type Case: Serialize + DeserializeOwned + Clone + Send + Sync;
    /// (quick, thorough) number of generated cases
    const CASES: (u64, u64);
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str];
    fn gen(s: &mut Src, idx: u64) -> Self::Case;
    fn run(case: &Self::Case, cov: &mut Cov) -> Result<(), String>;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static EXTRA: Cell<u64> = const { Cell::new(0) };
}
const CALL_LIMIT: u64 = 150_000_000;

/// Counts a call from the code under test into user code; stops runaway work.
#[inline]
pub fn tick() {
    CALLS.with(|c| {
        let v = c.get() + 1;
        c.set(v);
        let limit = CALL_LIMIT + EXTRA.with(|e| e.get());
        if v > limit {
            c.set(0);
            panic!("work budget exceeded: more than {limit} calls into the elements");
        }
    });
}
/// Raises the work budget of this case for `n` more elements.
pub fn more_work(n: usize) {
    EXTRA.with(|e| e.set(e.get() + n as u64 * 3000));
}
pub fn ticks() -> u64 {
    CALLS.with(|c| c.get())
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panic '{msg}' at {loc}");
            }
        });
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn clear_last_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

/// Runs `f`, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

fn run_case<C: Check>(case: &C::Case, cov: &mut Cov) -> Result<(), String> {
    CALLS.with(|c| c.set(0));
    EXTRA.with(|c| c.set(0));
    crate::geo::reset_thread_state();
    if !slow_debug() {
        return guarded(|| C::run(case, cov));
    }
    let t = std::time::Instant::now();
    let r = guarded(|| C::run(case, cov));
    if t.elapsed().as_secs_f64() > 1.0 {
        let mut text = serde_json::to_string(case).unwrap_or_default();
        text.truncate(600);
        eprintln!("slow case, {:.1} s: {text}", t.elapsed().as_secs_f64());
    }
    r
}
/// For development: `RCHECK_SLOW=1` reports cases that take more than a second.
fn slow_debug() -> bool {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ON.get_or_init(|| std::env::var_os("RCHECK_SLOW").is_some())
}
/// The chance, one in so many, of a huge tree; `RCHECK_HUGE=n` changes it for development.
pub fn huge_chance() -> u64 {
    static N: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *N.get_or_init(|| std::env::var("RCHECK_HUGE").ok().and_then(|x| x.parse().ok()).unwrap_or(40_000))
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub scratch: PathBuf,
}
impl Ctx {
    fn size(&self) -> usize {
        if self.tier == Tier::Quick {
            1
        } else {
            3
        }
    }
}

fn json_file(p: &Path, v: &serde_json::Value) {
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    std::fs::write(p, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap();
}

fn write_replay<C: Check>(ctx: &Ctx, case: &C::Case, msg: &str, origin: &str) -> PathBuf {
    let body = serde_json::json!({
        "property": C::ID, "message": msg, "origin": origin, "seed": ctx.seed,
        "case": serde_json::to_value(case).unwrap(),
    });
    let h = hash_str(&body["case"].to_string());
    let p = verif_dir().join("replays").join(format!("{}-{:012x}.json", C::ID, h >> 16));
    json_file(&p, &body);
    p
}

fn violation<C: Check>(ctx: &Ctx, case: &C::Case, msg: &str, origin: &str) {
    let p = write_replay::<C>(ctx, case, msg, origin);
    println!("{}: {}", C::ID, msg);
    let text = serde_json::to_string(case).unwrap();
    if text.len() < 3000 {
        println!("minimal case: {text}");
    }
    println!("VIOLATION property={} replay={}", C::ID, p.display());
}

// ---------------------------------------------------------------- shrinking

/// Shrinks a failing choice sequence; `fails` runs a candidate and returns the recorded (normalised)
/// choices and spans if it still fails.
type Failing = (Vec<u64>, Vec<(usize, usize)>, String);
fn shrink(
    start: Failing,
    mut fails: impl FnMut(&[u64]) -> Option<Failing>,
    max_time: Duration,
    max_tries: usize,
) -> Failing {
    let t0 = Instant::now();
    let mut best = start;
    let mut tries = 0;
    let mut seen: HashSet<u64> = HashSet::new();
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if tries < max_tries && t0.elapsed() < max_time && seen.insert(hash_words(&cand)) {
                tries += 1;
                if let Some(f) = fails(&cand) {
                    if better(&f.0, &best.0) {
                        best = f;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    loop {
        let before = best.0.clone();
        // remove list elements: runs of sibling spans, then single spans
        let mut k = best.1.len().max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.1.len() {
                let sp = &best.1;
                let j = (i + k).min(sp.len());
                let mut del = vec![false; best.0.len()];
                for &(a, b) in &sp[i..j] {
                    for d in &mut del[a..b] {
                        *d = true;
                    }
                }
                let cand: Vec<u64> =
                    best.0.iter().zip(&del).filter(|(_, d)| !**d).map(|(v, _)| *v).collect();
                if !attempt!(cand) {
                    i += k;
                }
                if tries >= max_tries || t0.elapsed() > max_time {
                    return best;
                }
            }
            k /= 2;
        }
        // truncate
        let mut cut = best.0.len() / 2;
        while cut > 0 {
            if best.0.len() > cut {
                let cand = best.0[..best.0.len() - cut].to_vec();
                if attempt!(cand) {
                    continue;
                }
            }
            cut /= 2;
        }
        // delete small raw chunks
        if best.0.len() < 400 {
            for k in [4usize, 2, 1] {
                let mut i = 0;
                while i + k <= best.0.len() {
                    let mut cand = best.0.clone();
                    cand.drain(i..i + k);
                    if !attempt!(cand) {
                        i += 1;
                    }
                }
            }
        }
        // lower values: zero blocks, then minimise one by one
        let mut k = best.0.len();
        while k >= 1 {
            let mut i = 0;
            while i < best.0.len() {
                let j = (i + k).min(best.0.len());
                if best.0[i..j].iter().any(|v| *v != 0) {
                    let mut cand = best.0.clone();
                    cand[i..j].iter_mut().for_each(|v| *v = 0);
                    attempt!(cand);
                }
                i += k;
            }
            k /= 2;
        }
        let mut i = 0;
        while i < best.0.len() {
            let mut lo = 0u64;
            while i < best.0.len() && best.0[i] > lo {
                let v = best.0[i];
                let mid = lo + (v - lo) / 2;
                let mut cand = best.0.clone();
                cand[i] = mid;
                if !attempt!(cand) {
                    lo = mid + 1;
                }
                if tries >= max_tries || t0.elapsed() > max_time {
                    return best;
                }
            }
            i += 1;
        }
        if best.0 == before {
            return best;
        }
    }
}

// ---------------------------------------------------------------- the search

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    counts: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeMap<String, (u64, String)>,
}
impl Stats {
    fn add(&mut self, key: u64, cov: Cov) -> bool {
        self.evaluations += 1;
        for l in cov.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        for (l, n) in cov.counts {
            *self.counts.entry(l).or_default() += n;
        }
        for (k, d) in cov.known {
            let e = self.known.entry(k).or_insert((0, d));
            e.0 += 1;
        }
        cov.nontrivial && self.nontrivial.insert(key)
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (l, n) in o.labels {
            *self.labels.entry(l).or_default() += n;
        }
        for (l, n) in o.counts {
            *self.counts.entry(l).or_default() += n;
        }
        for (k, (n, d)) in o.known {
            let e = self.known.entry(k).or_insert((0, d));
            e.0 += n;
        }
        self.samples.extend(o.samples);
    }
}

fn write_evidence<C: Check>(
    ctx: &Ctx,
    st: &Stats,
    regress: usize,
    violations: u32,
    wall: f64,
    complete: bool,
) {
    let mut samples = st.samples.clone();
    samples.sort();
    let samples: Vec<serde_json::Value> =
        samples.iter().take(4).map(|(_, s)| serde_json::from_str(s).unwrap()).collect();
    let tier = if ctx.tier == Tier::Quick { "quick" } else { "thorough" };
    let ev = serde_json::json!({
        "property": C::ID, "tier": tier, "seed": ctx.seed, "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": C::RULE,
            "samples": samples,
            "cases_by_class": st.labels,
            "work_counts": st.counts,
            "regression_cases": regress,
            "planned_cases": if ctx.tier == Tier::Quick { C::CASES.0 } else { C::CASES.1 },
            "completed": complete,
            "known_findings_hit": st.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": C::ASSUMPTIONS,
        "wall_s": wall,
        "violations": violations,
    });
    json_file(&verif_dir().join("evidence").join(format!("{}.json", C::ID)), &ev);
}

fn regressions<C: Check>() -> Vec<(PathBuf, C::Case)> {
    let mut v = Vec::new();
    if let Ok(rd) = std::fs::read_dir(verif_dir().join("regress").join(C::ID)) {
        let mut files: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        files.sort();
        for f in files {
            if f.extension().is_some_and(|e| e == "json") {
                let t = std::fs::read_to_string(&f).unwrap();
                let j: serde_json::Value = serde_json::from_str(&t).unwrap();
                match serde_json::from_value(j["case"].clone()) {
                    Ok(c) => v.push((f, c)),
                    Err(e) => {
                        eprintln!("regression case {} does not parse: {e}", f.display());
                        std::process::exit(2);
                    }
                }
            }
        }
    }
    v
}

fn time_cap(tier: Tier) -> Duration {
    let d = if tier == Tier::Quick { 400 } else { 7200 };
    Duration::from_secs(
        std::env::var("RCHECK_TIME_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(d),
    )
}

const SLOW_CASE: Duration = Duration::from_secs(60);

/// Runs in the worker process. Exit code: 0 held, 1 violation, 97 a case ran too long.
pub fn worker<C: Check>(ctx: &Ctx) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let (q, t) = C::CASES;
    let total = match ctx.tier {
        Tier::Quick => q,
        Tier::Thorough => t,
    };
    let total =
        std::env::var("RCHECK_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let nthreads = std::env::var("RCHECK_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let mut stats = Stats::default();

    // committed regression cases first
    let inflight = std::fs::OpenOptions::new()
        .create(true)
        .truncate(false)
        .write(true)
        .open(ctx.scratch.join("inflight"))
        .unwrap();
    let regress = regressions::<C>();
    for (i, (path, case)) in regress.iter().enumerate() {
        inflight.write_all_at(&(u64::MAX - 1 - i as u64).to_le_bytes(), 0).unwrap();
        let mut cov = Cov::default();
        let case2 = case.clone();
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || run_case::<C>(&case2, &mut cov))
                .unwrap()
                .join()
                .unwrap()
        });
        stats.add(hash_str(&path.display().to_string()), cov);
        if let Err(m) = r {
            violation::<C>(ctx, case, &m, &format!("regression {}", path.display()));
            write_evidence::<C>(ctx, &stats, regress.len(), 1, t0.elapsed().as_secs_f64(), false);
            return 1;
        }
    }
    inflight.write_all_at(&u64::MAX.to_le_bytes(), 0).unwrap();

    let next = AtomicU64::new(0);
    let best_fail = AtomicU64::new(u64::MAX);
    let truncated = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let fails: Mutex<Vec<(u64, Failing)>> = Mutex::new(Vec::new());
    let all: Mutex<Vec<Stats>> = Mutex::new(Vec::new());
    let starts: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let chunk = (total / (nthreads as u64 * 64)).clamp(1, 64);
    let cap = time_cap(ctx.tier);
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, best_fail, fails, all, starts, inflight, truncated, done) =
                (&next, &best_fail, &fails, &all, &starts, &inflight, &truncated, &done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        let c = next.fetch_add(chunk, Ordering::Relaxed);
                        if c >= total || c > best_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        if t0.elapsed() > cap {
                            truncated.store(true, Ordering::Relaxed);
                            break;
                        }
                        for idx in c..(c + chunk).min(total) {
                            let _ = inflight.write_all_at(&idx.to_le_bytes(), 8 * t as u64);
                            starts[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let mut src = Src::random(case_seed(ctx.seed, C::ID, idx), ctx.size());
                            let case = C::gen(&mut src, idx);
                            let mut cov = Cov::default();
                            let r = run_case::<C>(&case, &mut cov);
                            let key = hash_words(&src.rec);
                            if st.add(key, cov) && st.samples.len() < 2 {
                                if let Ok(s) = serde_json::to_string(&case) {
                                    if s.len() < 2500 {
                                        st.samples.push((idx, s));
                                    }
                                }
                            }
                            if let Err(m) = r {
                                best_fail.fetch_min(idx, Ordering::Relaxed);
                                fails.lock().unwrap().push((idx, (src.rec, src.spans, m)));
                                break;
                            }
                        }
                    }
                    starts[t].store(0, Ordering::Relaxed);
                    let _ = inflight.write_all_at(&u64::MAX.to_le_bytes(), 8 * t as u64);
                    all.lock().unwrap().push(st);
                    done.fetch_add(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // watchdog
        while done.load(Ordering::Relaxed) < nthreads as u64 {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_millis() as u64;
            for st in &starts {
                let b = st.load(Ordering::Relaxed);
                if b != 0 && now > b + SLOW_CASE.as_millis() as u64 {
                    std::process::exit(97);
                }
            }
        }
    });
    for st in all.into_inner().unwrap() {
        stats.merge(st);
    }
    let complete = !truncated.load(Ordering::Relaxed);
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    if let Some((idx, f)) = fails.into_iter().next() {
        let first = f.2.clone();
        let best = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    shrink(
                        f,
                        |ch| {
                            let mut src = Src::replay(ch, ctx.size());
                            let case = guarded(|| Ok(C::gen(&mut src, idx))).ok()?;
                            let mut cov = Cov::default();
                            match run_case::<C>(&case, &mut cov) {
                                Ok(()) => None,
                                Err(m) => Some((src.rec, src.spans, m)),
                            }
                        },
                        Duration::from_secs(45),
                        6000,
                    )
                })
                .unwrap()
                .join()
                .unwrap()
        });
        let case = C::gen(&mut Src::replay(&best.0, ctx.size()), idx);
        println!("first failure at case {idx}: {first}");
        violation::<C>(ctx, &case, &best.2, &format!("case {idx}"));
        write_evidence::<C>(ctx, &stats, regress.len(), 1, t0.elapsed().as_secs_f64(), complete);
        return 1;
    }
    for (k, (n, d)) in &stats.known {
        let desc = known_keys(C::ID).iter().find(|x| x.0 == *k).map(|x| x.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} [{n} cases, e.g. {}]", C::ID, desc, d.replace('\n', " "));
    }
    write_evidence::<C>(ctx, &stats, regress.len(), 0, t0.elapsed().as_secs_f64(), complete);
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s{}",
        C::ID,
        stats.evaluations,
        stats.nontrivial.len(),
        t0.elapsed().as_secs_f64(),
        if complete { "" } else { " (stopped at the time cap)" }
    );
    0
}

/// Runs one generated case (`idx`), one choice file, or one replay file in this process.
pub fn one<C: Check>(ctx: &Ctx, what: &str) -> i32 {
    install_hook();
    limits(60, 6 << 30);
    let case: C::Case = if let Some(f) = what.strip_prefix("file:") {
        let t = std::fs::read_to_string(f).unwrap();
        let j: serde_json::Value = serde_json::from_str(&t).unwrap();
        serde_json::from_value(j["case"].clone()).expect("replay file does not parse")
    } else {
        let idx: u64 = what.parse().unwrap();
        C::gen(&mut Src::random(case_seed(ctx.seed, C::ID, idx), ctx.size()), idx)
    };
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut cov = Cov { verbose: true, ..Default::default() };
            run_case::<C>(&case, &mut cov)
        })
        .unwrap()
        .join()
        .unwrap();
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("{}: {m}", C::ID);
            1
        }
    }
}

fn limits(cpu_s: u64, mem: u64) {
    unsafe {
        if cpu_s > 0 {
            let r = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
        }
        let r = libc::rlimit { rlim_cur: mem, rlim_max: mem };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}
pub fn worker_limits() {
    limits(0, 20 << 30);
}

/// How an isolated run of one case ended abnormally, if it did.
fn abnormal(status: std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = status.signal() {
        return Some(match sig {
            libc::SIGXCPU => "the case does not finish within 60 s of CPU time".into(),
            libc::SIGKILL => return None, // the machine, not the case
            libc::SIGABRT => "the process aborts (panic while unwinding, stack overflow or memory exhausted)".into(),
            s => format!("the process dies with signal {s}"),
        });
    }
    None
}

/// Parent: runs the worker as a subprocess and isolates cases that kill it.
pub fn parent<C: Check>(ctx: &Ctx) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let base = |mode: &str| {
        let mut c = Command::new(&exe);
        c.arg(mode)
            .arg(C::ID)
            .arg(if ctx.tier == Tier::Quick { "quick" } else { "thorough" })
            .arg(ctx.seed.to_string())
            .arg(&ctx.scratch);
        c
    };
    let _ = std::io::stdout().flush();
    let st = base("worker").status().expect("cannot start worker");
    if let Some(c @ (0 | 1 | 2)) = st.code() {
        return c;
    }
    println!("{}: worker ended abnormally ({st}); isolating the cases that were running", C::ID);
    let mut ids: Vec<u64> = std::fs::read(ctx.scratch.join("inflight"))
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
        .filter(|v| *v != u64::MAX)
        .collect();
    ids.sort();
    ids.dedup();
    let regs = regressions::<C>();
    for idx in ids {
        let is_reg = idx > u64::MAX - 1_000_000;
        let arg = if is_reg {
            format!("file:{}", regs[(u64::MAX - 1 - idx) as usize].0.display())
        } else {
            idx.to_string()
        };
        let out = base("one").arg(&arg).output().unwrap();
        let mut why = abnormal(out.status);
        if why.is_none() && out.status.code() == Some(1) {
            why = Some(String::from_utf8_lossy(&out.stdout).trim().to_string());
        }
        if let Some(why) = why {
            // shrink with subprocess runs
            let case = if is_reg {
                regs[(u64::MAX - 1 - idx) as usize].1.clone()
            } else {
                let mut src = Src::random(case_seed(ctx.seed, C::ID, idx), ctx.size());
                C::gen(&mut src, idx);
                let slow = why.contains("CPU time");
                let tmp = ctx.scratch.join("cand.json");
                let best = shrink(
                    (src.rec, src.spans, why.clone()),
                    |ch| {
                        let mut s2 = Src::replay(ch, ctx.size());
                        let case = C::gen(&mut s2, idx);
                        json_file(&tmp, &serde_json::json!({"case": serde_json::to_value(&case).unwrap()}));
                        let out = base("one").arg(format!("file:{}", tmp.display())).output().unwrap();
                        let w = abnormal(out.status)?;
                        Some((s2.rec, s2.spans, w))
                    },
                    Duration::from_secs(if slow { 1 } else { 60 }),
                    800,
                );
                C::gen(&mut Src::replay(&best.0, ctx.size()), idx)
            };
            violation::<C>(ctx, &case, &why, &format!("case {idx}"));
            let st = Stats { evaluations: 1, ..Default::default() };
            write_evidence::<C>(ctx, &st, regs.len(), 1, t0.elapsed().as_secs_f64(), false);
            return 1;
        }
    }
    println!("{}: no single case reproduces the abnormal end; no verdict", C::ID);
    2
}
