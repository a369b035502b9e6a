//! Choice-sequence property-testing engine (Hypothesis style).
//!
//! A property draws every random decision from a [`Src`].  In generation mode the
//! draws come from a seeded PRNG and are recorded; in replay mode they are read back
//! from a recorded sequence (0 once it runs out).  Shrinking edits the recorded
//! sequence, so every property shrinks without a hand-written shrinker, and the
//! sequence (plus a rendering of the case) is the replay file.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ── PRNG ────────────────────────────────────────────────────────────────────

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

// ── Source of choices ───────────────────────────────────────────────────────

pub struct Src<'a> {
    mode: Mode<'a>,
    pub record: Vec<u32>,
    /// soft budget: once exceeded every draw returns 0, which ends all recursion
    max: usize,
}

enum Mode<'a> {
    Gen(Rng),
    Replay(&'a [u32], usize),
}

impl<'a> Src<'a> {
    pub fn random(seed: u64) -> Src<'static> {
        Src { mode: Mode::Gen(Rng::new(seed)), record: Vec::new(), max: 6000 }
    }
    pub fn replay(data: &'a [u32]) -> Src<'a> {
        Src { mode: Mode::Replay(data, 0), record: Vec::new(), max: 6000 }
    }
    /// Uniform in 0..n (0 is the simplest choice).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0 && n <= u32::MAX as usize);
        if n <= 1 {
            return 0;
        }
        let v = if self.record.len() >= self.max {
            0
        } else {
            match &mut self.mode {
                Mode::Gen(r) => (r.next() % n as u64) as usize,
                Mode::Replay(d, pos) => {
                    let v = d.get(*pos).copied().unwrap_or(0) as usize;
                    *pos += 1;
                    v.min(n - 1)
                }
            }
        };
        self.record.push(v as u32);
        v
    }
    /// Inclusive range; `lo` is the simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen by weight; index 0 is the simplest.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    /// A full 64-bit value (two draws).
    pub fn u64(&mut self) -> u64 {
        let a = self.below(1 << 16) as u64;
        let b = self.below(1 << 16) as u64;
        let c = self.below(1 << 16) as u64;
        let d = self.below(1 << 16) as u64;
        (a << 48) | (b << 32) | (c << 16) | d
    }
}

// ── Context handed to a property ────────────────────────────────────────────

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// text identifying the case (distinctness and samples)
    pub case: String,
    /// what was found, in known-finding form, if the case met a listed finding
    pub excluded: Vec<&'static str>,
    pub steps: usize,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

pub enum Outcome {
    Pass,
    /// the case could not be decided (a resource limit was met): counted, never a violation
    Inconclusive(&'static str),
    Fail(String),
}

pub type PropFn = fn(&mut Src, &mut Ctx) -> Outcome;

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub rule: &'static str,
    pub quick_cases: u64,
    pub thorough_cases: u64,
    pub assumptions: &'static [&'static str],
    pub run: PropFn,
    /// Pinned regression cases: (name, function) run on every invocation.
    pub pinned: fn() -> Vec<(String, Result<(), String>)>,
}

pub fn no_pinned() -> Vec<(String, Result<(), String>)> {
    Vec::new()
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return $crate::engine::Outcome::Fail(format!($($a)*)) };
}

// ── Running one case ────────────────────────────────────────────────────────

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

pub fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(src, ctx))) {
        Ok(o) => o,
        Err(_) => Outcome::Fail(last_panic()),
    }
}

pub fn case_seed(id: &str, seed: u64, idx: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ fnv(id) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

// ── Shrinking ───────────────────────────────────────────────────────────────

/// `test` returns the consumed choice sequence if the candidate still fails.
pub fn shrink(start: Vec<u32>, max_tests: usize, mut test: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let mut best = start;
    let mut tests = 0usize;
    let smaller = |a: &Vec<u32>, b: &Vec<u32>| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            if tests >= max_tests {
                return best;
            }
            tests += 1;
            match test(&$cand) {
                Some(mut rec) => {
                    while rec.last() == Some(&0) {
                        rec.pop();
                    }
                    if smaller(&rec, &best) {
                        best = rec;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // delete blocks
        for size in [64usize, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    let ok = attempt!(c);
                    if ok {
                        i = i.min(best.len().saturating_sub(size));
                        if best.len() < size {
                            break;
                        }
                        continue;
                    }
                }
                if i == 0 {
                    break;
                }
                i -= 1;
            }
        }
        // zero blocks
        for size in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + size] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0u32, v);
                    // smallest still-failing value by bisection (monotone assumption is only a heuristic)
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }
        // lower one value while deleting the following one
        let mut i = 0;
        while i + 1 < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt!(c);
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

/// Exit code of a worker whose case does not end.
pub const HANG: i32 = 97;

// ── Campaign ────────────────────────────────────────────────────────────────

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub steps: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub excluded: BTreeMap<&'static str, u64>,
    pub inconclusive: BTreeMap<&'static str, u64>,
    pub samples: BTreeMap<u64, String>,
    pub failure: Option<(u64, Vec<u32>, String)>,
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub struct Journal {
    files: Vec<std::fs::File>,
}

impl Journal {
    pub fn open(dir: &std::path::Path, threads: usize) -> std::io::Result<Journal> {
        let mut files = Vec::new();
        for t in 0..threads {
            files.push(
                std::fs::OpenOptions::new().create(true).truncate(true).write(true).read(true).open(dir.join(format!("t{t}")))?,
            );
        }
        Ok(Journal { files })
    }
    pub fn note(&self, t: usize, idx: u64) {
        use std::os::unix::fs::FileExt;
        let _ = self.files[t].write_at(&idx.to_le_bytes(), 0);
    }
}

/// Runs cases `first..first + cases`; stops early at a failure or at the deadline.
pub fn campaign(
    p: &'static Prop,
    seed: u64,
    first: u64,
    cases: u64,
    threads: usize,
    journal: Option<Journal>,
    hang_secs: u64,
    deadline: std::time::Instant,
) -> Stats {
    let cases = first + cases;
    let best_fail = AtomicU64::new(u64::MAX);
    let global = Mutex::new(Stats::default());
    let done = AtomicBool::new(false);
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (best_fail, global, journal, beats, finished) = (&best_fail, &global, &journal, &beats, &finished);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    let mut idx = first + t as u64;
                    while idx < cases && idx < best_fail.load(Ordering::Relaxed) && std::time::Instant::now() < deadline {
                        if let Some(j) = journal {
                            j.note(t, idx);
                        }
                        beats[t].fetch_add(1, Ordering::Relaxed);
                        let mut src = Src::random(case_seed(p.id, seed, idx));
                        let mut ctx = Ctx::default();
                        let out = run_case(p, &mut src, &mut ctx);
                        st.evaluations += 1;
                        st.steps += ctx.steps as u64;
                        for l in &ctx.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        for l in &ctx.excluded {
                            *st.excluded.entry(l).or_default() += 1;
                        }
                        if ctx.nontrivial {
                            let h = hash_str(&ctx.case);
                            if st.nontrivial.insert(h) && st.samples.len() < 4 && ctx.case.len() < 1500 {
                                st.samples.insert(idx, ctx.case.clone());
                            }
                        }
                        match out {
                            Outcome::Pass => {}
                            Outcome::Inconclusive(why) => *st.inconclusive.entry(why).or_default() += 1,
                            Outcome::Fail(m) => {
                                best_fail.fetch_min(idx, Ordering::Relaxed);
                                st.failure = Some((idx, src.record, m));
                                break;
                            }
                        }
                        idx += threads as u64;
                    }
                    finished.fetch_add(1, Ordering::SeqCst);
                    beats[t].store(u64::MAX, Ordering::SeqCst);
                    let mut g = global.lock().unwrap();
                    g.evaluations += st.evaluations;
                    g.steps += st.steps;
                    g.nontrivial.extend(st.nontrivial);
                    for (k, v) in st.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in st.excluded {
                        *g.excluded.entry(k).or_default() += v;
                    }
                    for (k, v) in st.inconclusive {
                        *g.inconclusive.entry(k).or_default() += v;
                    }
                    g.samples.extend(st.samples);
                    if let Some(f) = st.failure {
                        if g.failure.as_ref().map(|x| f.0 < x.0).unwrap_or(true) {
                            g.failure = Some(f);
                        }
                    }
                })
                .unwrap();
        }
        // watchdog: a case that does not end is an error of the run (exit 3), never a violation
        let (beats, finished, done) = (&beats, &finished, &done);
        s.spawn(move || {
            let mut last: Vec<u64> = vec![0; threads];
            let mut since = vec![std::time::Instant::now(); threads];
            while finished.load(Ordering::SeqCst) < threads && !done.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for t in 0..threads {
                    let b = beats[t].load(Ordering::Relaxed);
                    if b != last[t] || b == u64::MAX {
                        last[t] = b;
                        since[t] = std::time::Instant::now();
                    } else if since[t].elapsed().as_secs() > hang_secs {
                        eprintln!("WATCHDOG: one case ran for more than {hang_secs} s");
                        std::process::exit(HANG);
                    }
                }
            }
        });
    });
    global.into_inner().unwrap()
}
