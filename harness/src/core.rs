//! Harness core: deterministic PRNG, verdicts, case contexts, panic capture, the case runner.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let a = mix(seed);
        let b = mix(a ^ 0xD1B54A32D192ED03);
        Rng(a, b | 1)
    }
    pub fn u64(&mut self) -> u64 {
        // xorshift128+
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() >> 11) as usize % n
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        (self.u64() >> 24) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn b32(&mut self) -> [u8; 32] {
        let mut a = [0u8; 32];
        for x in a.iter_mut() {
            *x = self.byte();
        }
        a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- verdicts

#[derive(Debug, Clone)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! vio {
    ($sig:expr, $($a:tt)*) => { return Err($crate::core::Viol { sig: $sig.to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! chk {
    ($cond:expr, $sig:expr, $($a:tt)*) => { if !($cond) { $crate::vio!($sig, $($a)*); } };
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static QUIET: Cell<u32> = Cell::new(0);
}

/// Panic payload used by instrumented stores when an operation makes too many store calls.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        if QUIET.with(|q| q.get()) == 0 {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn short_loc(loc: &str) -> String {
    // file name and no line number, so that the signature survives edits
    loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string()
}

/// Runs a call into the code under test. A panic inside it is a violation.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match lib_catch(f) {
        Ok(v) => Ok(v),
        Err((loc, msg)) => Err(Viol {
            sig: format!("panic:{}:{}", what, short_loc(&loc)),
            msg: format!("panic in {what} at {loc}: {msg}"),
        }),
    }
}

pub fn lib_catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

/// As `lib`, for calls that must also succeed.
pub fn ok<T, E: std::fmt::Debug>(what: &str, f: impl FnOnce() -> Result<T, E>) -> R<T> {
    match lib(what, f)? {
        Ok(v) => Ok(v),
        Err(e) => Err(Viol {
            sig: format!("err:{what}"),
            msg: format!("{what} failed unexpectedly: {e:?}"),
        }),
    }
}

// ---------------------------------------------------------------- case context

pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub logging: bool,
    pub log: Vec<String>,
    pub ev: BTreeMap<&'static str, u64>,
    pub fp: u64,
    pub nontrivial: bool,
    pub thorough: bool,
    /// known findings whose witness reproduced in this case
    pub known: Vec<(String, String)>,
}

impl Case {
    pub fn new(seed: u64, logging: bool, thorough: bool) -> Self {
        Case {
            rng: Rng::new(seed),
            seed,
            logging,
            log: vec![],
            ev: BTreeMap::new(),
            fp: 0,
            nontrivial: false,
            thorough,
            known: vec![],
        }
    }
    pub fn op(&mut self, f: impl FnOnce() -> String) {
        if self.logging && self.log.len() < 4000 {
            let s = f();
            self.log.push(s);
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.ev.entry(k).or_insert(0) += n;
    }
    pub fn print(&mut self, x: u64) {
        self.fp = mix(self.fp ^ x);
    }
    pub fn print_bytes(&mut self, b: &[u8]) {
        let mut h = 0xcbf29ce484222325u64;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.print(h);
    }
}

pub fn hx(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

// ---------------------------------------------------------------- runner

pub type CaseFn = fn(&mut Case) -> R<()>;

pub struct Spec {
    pub id: &'static str,
    pub f: CaseFn,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub quick_s: u64,
    pub thorough_s: u64,
    pub threads: usize,
    /// counters that must be non-zero at the end, else the run is inconclusive
    pub must: &'static [&'static str],
}

pub enum CaseEnd {
    Held,
    Viol(Viol),
    Harness(String),
}

pub fn run_case(f: CaseFn, c: &mut Case) -> CaseEnd {
    run_dyn(&mut || f(c))
}

/// Runs a piece of harness code: its verdict, or where it panicked.
pub fn run_dyn(f: &mut dyn FnMut() -> R) -> CaseEnd {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    QUIET.with(|q| q.set(1));
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    QUIET.with(|q| q.set(0));
    match r {
        Ok(Ok(())) => CaseEnd::Held,
        Ok(Err(v)) => CaseEnd::Viol(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("/repo/") {
                CaseEnd::Viol(Viol {
                    sig: format!("panic:{}", short_loc(&loc)),
                    msg: format!("panic in the code under test at {loc}: {msg}"),
                })
            } else {
                CaseEnd::Harness(format!("harness panic at {loc}: {msg}"))
            }
        }
    }
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h = mix(seed);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx.wrapping_mul(0x2545F4914F6CDD1D))
}

#[derive(Default)]
pub struct Outcome {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub ev: BTreeMap<&'static str, u64>,
    pub viol: Option<(u64, Viol)>,
    pub harness: Option<(u64, String)>,
    pub wall: f64,
    pub sample_seeds: Vec<u64>,
    pub timed_out: bool,
}

/// Runs cases until the target count or the time cap. `inflight(thread, seed)` is told about each
/// case before it starts.
pub fn run_cases(
    spec: &Spec,
    seed: u64,
    thorough: bool,
    inflight: &(dyn Fn(usize, u64) + Sync),
) -> Outcome {
    let target = if thorough { spec.thorough } else { spec.quick };
    let secs = std::env::var("PV_SECS").ok().and_then(|s| s.parse().ok());
    let cap = Duration::from_secs(secs.unwrap_or(if thorough { spec.thorough_s } else { spec.quick_s }));
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let out = Mutex::new(Outcome::default());
    let threads = spec.threads.min(
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).max(1),
    );
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, out) = (&next, &stop, &out);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Outcome::default();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed() > cap {
                            local.timed_out = true;
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= target {
                            break;
                        }
                        let cs = case_seed(seed, spec.id, i);
                        inflight(t, cs);
                        let mut c = Case::new(cs, false, thorough);
                        match run_case(spec.f, &mut c) {
                            CaseEnd::Held => {}
                            CaseEnd::Viol(v) => {
                                stop.store(true, Ordering::Relaxed);
                                local.viol.get_or_insert((cs, v));
                            }
                            CaseEnd::Harness(m) => {
                                stop.store(true, Ordering::Relaxed);
                                local.harness.get_or_insert((cs, m));
                            }
                        }
                        local.evaluations += 1;
                        if c.nontrivial {
                            if local.distinct.insert(c.fp) && local.sample_seeds.len() < 3 && i < 200 {
                                local.sample_seeds.push(cs);
                            }
                        }
                        for (k, v) in c.ev {
                            *local.ev.entry(k).or_insert(0) += v;
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.evaluations += local.evaluations;
                    o.distinct.extend(local.distinct);
                    o.timed_out |= local.timed_out;
                    for (k, v) in local.ev {
                        *o.ev.entry(k).or_insert(0) += v;
                    }
                    if o.viol.is_none() {
                        o.viol = local.viol;
                    }
                    if o.harness.is_none() {
                        o.harness = local.harness;
                    }
                    if o.sample_seeds.len() < 3 {
                        o.sample_seeds.extend(local.sample_seeds);
                        o.sample_seeds.truncate(3);
                    }
                })
                .unwrap();
        }
    });
    let mut o = out.into_inner().unwrap();
    o.wall = start.elapsed().as_secs_f64();
    o
}
