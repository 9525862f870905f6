//! Runtime of the monitors: random workloads, observation of the code under
//! test (panics, allocations as logical steps, CPU time), verdicts, evidence.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::Mutex;

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// integer literals found in the sources under test (workload dictionary)
pub static DICT: Mutex<Vec<i64>> = Mutex::new(Vec::new());
thread_local! { static TDICT: RefCell<Option<Vec<i64>>> = RefCell::new(None); }

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.u64() as u128 * span) >> 64) as i128) as i64
    }
    pub fn usz(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// some integer literal of the sources under test, or nearby
    pub fn dict(&mut self) -> i64 {
        let k = self.u64() as usize;
        TDICT.with(|d| {
            let mut d = d.borrow_mut();
            let v = d.get_or_insert_with(|| DICT.lock().unwrap().clone());
            if v.is_empty() {
                1
            } else {
                v[k % v.len()]
            }
        })
    }
    /// interesting signed integer with at most `bits` bits (bits <= 63 keeps
    /// |x| < 2^bits; bits == 64 covers all of i64)
    pub fn int(&mut self, bits: u32) -> i64 {
        let lim: i128 = if bits >= 64 { i64::MAX as i128 } else { (1i128 << bits) - 1 };
        let v: i128 = match self.below(16) {
            0 => 0,
            1 => 1,
            2 | 3 | 4 => self.range(0, 12) as i128,
            5 => self.range(0, 1000) as i128,
            6 => {
                let k = self.below(bits.max(1) as usize);
                (1i128 << k) + self.range(-1, 1) as i128
            }
            7 => lim - self.range(0, 3) as i128,
            8 => *self.pick(&[127i128, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 46340, 46341, 2147483647, 2147483648, 4294967295, 4294967296, 3037000499, 3037000500]),
            9 => (self.dict() as i128).abs() + if self.chance(1, 3) { self.range(-1, 1) as i128 } else { 0 },
            10 => {
                // smooth numbers: many common factors
                let mut v: i128 = 1;
                for _ in 0..self.below(12) {
                    let w = v * *self.pick(&[2i128, 2, 3, 3, 5, 7]);
                    if w > lim {
                        break;
                    }
                    v = w;
                }
                v
            }
            11 if bits >= 64 => lim + 1,
            _ => {
                let k = self.below(bits as usize + 1) as u32;
                if k == 0 {
                    0
                } else {
                    (self.u64() >> (64 - k.min(63))) as i128
                }
            }
        };
        let neg = self.chance(1, 2);
        let v = if v < 0 { -v } else { v };
        let v = if v > lim { if bits >= 64 { if neg { lim + 1 } else { lim } } else { v % (lim + 1) } } else { v };
        (if neg { -v } else { v }) as i64
    }
}

// ---------------------------------------------------------------- logical step counter (allocator)

pub struct CountingAlloc;

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub static ALLOC_BUDGET: AtomicU64 = AtomicU64::new(40_000_000);
const LIVE_BUDGET: i64 = 2 << 30;

#[inline]
fn on_alloc(size: usize) {
    let _ = IN_SUT.try_with(|s| {
        if s.get() {
            ALLOCS.with(|a| {
                let n = a.get() + 1;
                a.set(n);
                if n & 0xfff == 0 && n > ALLOC_BUDGET.load(Relaxed) {
                    die(77, "allocation step budget exceeded");
                }
            });
            LIVE.with(|l| {
                let n = l.get() + size as i64;
                l.set(n);
                if n > LIVE_BUDGET {
                    die(77, "live memory budget exceeded");
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = IN_SUT.try_with(|s| {
            if s.get() {
                LIVE.with(|x| x.set(x.get() - l.size() as i64));
            }
        });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}

extern "C" {
    fn _exit(code: i32) -> !;
}
#[cfg(not(miri))]
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

/// ends the process at once; the driver replays the cases named in the journal
fn die(code: i32, why: &str) -> ! {
    unsafe {
        #[cfg(not(miri))]
        {
            let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
            let mut buf = [0u8; 160];
            let mut n = 0;
            let mut put = |b: &[u8]| {
                for &x in b {
                    if n < 159 {
                        buf[n] = x;
                        n += 1;
                    }
                }
            };
            put(b"\nDIED slot=");
            put(&[b'0' + ((slot / 10) % 10) as u8, b'0' + (slot % 10) as u8]);
            put(b" why=");
            put(why.as_bytes());
            put(b"\n");
            write(2, buf.as_ptr(), n);
        }
        let _ = why;
        _exit(code)
    }
}

/// the case each thread is working on, in a file that survives the process
#[cfg(not(miri))]
fn open_journal(path: &str) -> Option<&'static [AtomicU64; MAXT]> {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    if path.is_empty() {
        return None;
    }
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).ok()?;
    f.set_len(8 * MAXT as u64).ok()?;
    let p = unsafe { mmap(std::ptr::null_mut(), 8 * MAXT, 3, 1, f.as_raw_fd(), 0) };
    if p as isize == -1 {
        return None;
    }
    let j = unsafe { &*(p as *const [AtomicU64; MAXT]) };
    j.iter().for_each(|x| x.store(u64::MAX, Relaxed));
    Some(j)
}
#[cfg(miri)]
fn open_journal(_: &str) -> Option<&'static [AtomicU64; MAXT]> {
    None
}

#[cfg(not(miri))]
fn cpu_clock() -> i32 {
    unsafe {
        let mut c = 0;
        pthread_getcpuclockid(pthread_self(), &mut c);
        c
    }
}
#[cfg(not(miri))]
fn cpu_ns(clk: i32) -> u64 {
    unsafe {
        let mut ts = [0i64; 2];
        clock_gettime(clk, &mut ts);
        ts[0] as u64 * 1_000_000_000 + ts[1] as u64
    }
}
#[cfg(miri)]
fn cpu_clock() -> i32 {
    0
}
#[cfg(miri)]
fn cpu_ns(_: i32) -> u64 {
    0
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if UB_CHECKS.iter().any(|m| msg.contains(m)) {
                // a check for undefined behaviour failed; it aborts the process
                eprintln!("UBCHECK {} [{}] SUT backtrace: {}", msg, loc, std::backtrace::Backtrace::force_capture());
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} [{}]", msg, loc));
        } else {
            default(info)
        }
    }));
}

/// messages of the compiler's and the standard library's own checks
const UB_CHECKS: [&str; 4] = ["unsafe precondition", "null pointer dereference", "misaligned pointer dereference", "construct an enum from an invalid value"];

#[derive(Debug, Clone)]
pub struct Panicked(pub String);
impl Panicked {
    /// arithmetic overflow detected by the overflow checks of the build
    pub fn overflow(&self) -> bool {
        self.0.to_lowercase().contains("overflow")
    }
}

/// payload of a panic of the harness's own exact arithmetic running out of range
pub const HARNESS_RANGE: &str = "HARNESS_RANGE";
pub fn harness_range() -> ! {
    panic!("{}", HARNESS_RANGE)
}

fn sut<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    IN_SUT.with(|s| s.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|s| s.set(false));
    r.map_err(|_| Panicked(LAST_PANIC.with(|p| p.borrow().clone())))
}

/// outside a monitored case; None if the call panicked
pub fn quiet_call<T>(f: impl FnOnce() -> T) -> Option<T> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(old));
    r
}

// ---------------------------------------------------------------- context

pub enum Fail {
    /// signature (for known findings), message
    Violation(String, String),
    /// the case says nothing (reason)
    Skip(&'static str),
}
pub type Res = Result<(), Fail>;

pub struct Ctx {
    pub rng: Rng,
    pub tier_thorough: bool,
    /// arithmetic overflow in the code under test is a violation
    pub strict: bool,
    pub checks: u64,
    pub calls: u64,
    pub panics_seen: u64,
    nontrivial: Option<u64>,
    pub tags: BTreeMap<&'static str, u64>,
    sample: Option<String>,
    want_sample: bool,
    pub stream: &'static str,
}

impl Ctx {
    pub fn new(seed: u64) -> Self {
        Ctx {
            rng: Rng::new(seed),
            tier_thorough: false,
            strict: false,
            checks: 0,
            calls: 0,
            panics_seen: 0,
            nontrivial: None,
            tags: BTreeMap::new(),
            sample: None,
            want_sample: false,
            stream: "",
        }
    }
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1;
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tag(t)
        }
    }
    /// identifies the case for the count of distinct ones
    pub fn key(&mut self, s: &str) {
        self.nontrivial = Some(hash_bytes(s.as_bytes()) ^ hash_bytes(self.stream.as_bytes()));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// run the code under test; a panic is returned as a value
    pub fn try_call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, Panicked> {
        self.calls += 1;
        let r = sut(f);
        if r.is_err() {
            self.panics_seen += 1;
        }
        r
    }
    /// run the code under test; a panic is a violation, except that arithmetic
    /// overflow is inconclusive unless the case is strict
    pub fn call<T>(&mut self, what: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, Fail> {
        match self.try_call(f) {
            Ok(v) => Ok(v),
            Err(p) if p.overflow() && !self.strict => Err(Fail::Skip("arithmetic overflow in the code under test (out of its range)")),
            Err(p) => Err(Fail::Violation(
                format!("{}:panic", what),
                format!("{} panicked on {}: {}", what, input(), p.0),
            )),
        }
    }
    /// the code under test must panic
    pub fn must_panic<T: std::fmt::Debug>(&mut self, what: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Res {
        self.checks += 1;
        match self.try_call(f) {
            Ok(v) => Err(Fail::Violation(
                format!("{}:no-panic", what),
                format!("{} on {} returned {:?} instead of panicking", what, input(), v),
            )),
            Err(_) => Ok(()),
        }
    }
}

#[macro_export]
macro_rules! ck {
    ($cx:expr, $cond:expr, $sig:expr, $($arg:tt)*) => {{
        $cx.checks += 1;
        if !($cond) {
            return Err($crate::rt::Fail::Violation($sig.to_string(), format!($($arg)*)));
        }
    }};
}

// ---------------------------------------------------------------- properties

/// the streams of a property, unless the build is for another property only
#[macro_export]
macro_rules! when {
    ($id:tt, $e:expr) => {
        if cfg!(any(not(feature = "only"), feature = $id)) {
            $e
        } else {
            Vec::new()
        }
    };
}

pub enum Kind {
    /// complete enumeration of 0..n, every run
    Sweep(u64, fn(&mut Ctx, u64) -> Res),
    /// random cases, relative weight
    Random(u32, fn(&mut Ctx) -> Res),
}
pub struct Stream {
    pub name: &'static str,
    pub kind: Kind,
}
pub fn sweep(name: &'static str, n: u64, f: fn(&mut Ctx, u64) -> Res) -> Stream {
    Stream { name, kind: Kind::Sweep(n, f) }
}
pub fn random(name: &'static str, w: u32, f: fn(&mut Ctx) -> Res) -> Stream {
    Stream { name, kind: Kind::Random(w, f) }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub streams: Vec<Stream>,
    /// random cases in the quick tier
    pub quick: u64,
    /// at least so many distinct non-trivial cases, or the run is inconclusive
    pub min_distinct: usize,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub threads: usize,
    pub seconds: f64,
    pub journal: String,
    pub only_case: Option<u64>,
    pub case_cpu_s: f64,
    pub max_cases: Option<u64>,
    /// cases left out (they end the process; reported by the driver)
    pub skip: Vec<u64>,
}

#[derive(Default)]
struct Acc {
    evals: u64,
    checks: u64,
    calls: u64,
    panics: u64,
    distinct: HashSet<u64>,
    skips: BTreeMap<&'static str, u64>,
    tags: BTreeMap<&'static str, u64>,
    streams: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    viol: Vec<(u64, String, String, String)>,
    max_allocs: u64,
    max_cpu_ns: u64,
}

fn run_case(p: &Prop, o: &Opts, idx: u64, sweeps: u64, acc: &mut Acc, clk: i32) {
    let mut h = hash_bytes(p.id.as_bytes()) ^ mix(o.seed.wrapping_mul(0x2545f4914f6cdd1d)) ^ mix(idx.wrapping_add(77));
    h = mix(h);
    let mut cx = Ctx::new(h);
    cx.tier_thorough = o.thorough;
    cx.want_sample = acc.samples.len() < 3 || o.only_case.is_some();
    // locate the stream
    let mut f: Option<(&Stream, u64)> = None;
    if idx < sweeps {
        let mut k = idx;
        for s in &p.streams {
            if let Kind::Sweep(n, _) = s.kind {
                if k < n {
                    f = Some((s, k));
                    break;
                }
                k -= n;
            }
        }
    } else {
        let tot: u32 = p.streams.iter().map(|s| if let Kind::Random(w, _) = s.kind { w } else { 0 }).sum();
        let mut k = ((idx - sweeps) % tot as u64) as u32;
        for s in &p.streams {
            if let Kind::Random(w, _) = s.kind {
                if k < w {
                    f = Some((s, 0));
                    break;
                }
                k -= w;
            }
        }
    }
    let (s, k) = f.expect("stream");
    cx.stream = s.name;
    ALLOCS.with(|a| a.set(0));
    LIVE.with(|a| a.set(0));
    let t0 = cpu_ns(clk);
    let r = catch_unwind(AssertUnwindSafe(|| match s.kind {
        Kind::Sweep(_, f) => f(&mut cx, k),
        Kind::Random(_, f) => f(&mut cx),
    }));
    IN_SUT.with(|s| s.set(false));
    let dt = cpu_ns(clk).saturating_sub(t0);
    acc.max_cpu_ns = acc.max_cpu_ns.max(dt);
    acc.max_allocs = acc.max_allocs.max(ALLOCS.with(|a| a.get()));
    if let Some(limit) = *SLOW.get_or_init(|| std::env::var("MON_SLOW").ok().and_then(|s| s.parse::<u64>().ok())) {
        // tuning aid: expensive cases
        let n = ALLOCS.with(|a| a.get());
        if n > limit || dt / 1000 > limit {
            eprintln!("SLOW case={} stream={} allocations={} cpu_ms={} {}", idx, s.name, n, dt / 1_000_000, cx.sample.as_deref().unwrap_or("").chars().take(600).collect::<String>());
        }
    }
    acc.evals += 1;
    acc.checks += cx.checks;
    acc.calls += cx.calls;
    acc.panics += cx.panics_seen;
    *acc.streams.entry(s.name).or_insert(0) += 1;
    for (t, n) in std::mem::take(&mut cx.tags) {
        *acc.tags.entry(t).or_insert(0) += n;
    }
    let mut good = false;
    match r {
        Ok(Ok(())) => good = true,
        Ok(Err(Fail::Skip(why))) => *acc.skips.entry(why).or_insert(0) += 1,
        Ok(Err(Fail::Violation(sig, msg))) => {
            if acc.viol.len() < 50 {
                acc.viol.push((idx, s.name.to_string(), sig, msg));
            }
        }
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.contains(HARNESS_RANGE) {
                *acc.skips.entry("reference model out of range").or_insert(0) += 1;
            } else {
                // a fault of the harness itself, never a verdict
                HARNESS_BUG.store(true, SeqCst);
                eprintln!("HARNESS-ERROR property={} case={} stream={}: {}", p.id, idx, s.name, m);
            }
        }
    }
    if good {
        if let Some(k) = cx.nontrivial {
            if acc.distinct.len() < 4_000_000 {
                acc.distinct.insert(k);
            }
        }
        if let Some(s) = cx.sample.take() {
            acc.samples.push((idx, s));
        }
    }
}

static SLOW: std::sync::OnceLock<Option<u64>> = std::sync::OnceLock::new();
static HARNESS_BUG: AtomicBool = AtomicBool::new(false);
const MAXT: usize = 64;
static CUR: [AtomicU64; MAXT] = [const { AtomicU64::new(u64::MAX) }; MAXT];
static CUR_CPU: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static CLK: [AtomicI32; MAXT] = [const { AtomicI32::new(0) }; MAXT];

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap<V: std::fmt::Display>(m: &BTreeMap<&'static str, V>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}…", t)
    }
}

/// runs the property; returns true if the run itself was sound
pub fn run(p: &Prop, o: &Opts) -> bool {
    let sweeps: u64 = p.streams.iter().map(|s| if let Kind::Sweep(n, _) = s.kind { n } else { 0 }).sum();
    let has_random = p.streams.iter().any(|s| matches!(s.kind, Kind::Random(..)));
    let n_random = if !has_random {
        0
    } else if o.thorough {
        p.quick.saturating_mul(10_000)
    } else {
        p.quick.saturating_mul(8)
    };
    let mut total = sweeps + n_random;
    if let Some(m) = o.max_cases {
        total = total.min(m);
    }
    let start = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let nthreads = if o.only_case.is_some() { 1 } else { o.threads };
    let journal = open_journal(&o.journal);
    let mut accs: Vec<Acc> = Vec::new();
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for t in 0..nthreads {
            let (next, stop, done) = (&next, &stop, &done);
            let b = std::thread::Builder::new().stack_size(64 << 20);
            hs.push(
                b.spawn_scoped(sc, move || {
                    QUIET.with(|q| q.set(true));
                    SLOT.with(|s| s.set(t));
                    let clk = cpu_clock();
                    CLK[t].store(clk, SeqCst);
                    let mut acc = Acc::default();
                    loop {
                        let idx = match o.only_case {
                            Some(c) => {
                                if acc.evals > 0 {
                                    break;
                                }
                                c
                            }
                            None => {
                                if stop.load(Relaxed) {
                                    break;
                                }
                                next.fetch_add(1, Relaxed)
                            }
                        };
                        if o.only_case.is_none() && idx >= total {
                            break;
                        }
                        if o.only_case.is_none() && o.skip.contains(&idx) {
                            continue;
                        }
                        CUR_CPU[t].store(cpu_ns(clk), Relaxed);
                        CUR[t].store(idx, SeqCst);
                        if let Some(j) = journal {
                            j[t].store(idx, Relaxed);
                        }
                        run_case(p, o, idx, sweeps, &mut acc, clk);
                        CUR[t].store(u64::MAX, SeqCst);
                        if let Some(j) = journal {
                            j[t].store(u64::MAX, Relaxed);
                        }
                        if !acc.viol.is_empty() && acc.viol.len() >= 5 {
                            stop.store(true, Relaxed);
                        }
                        if o.only_case.is_none() && idx >= sweeps.min(total) && start.elapsed().as_secs_f64() > o.seconds {
                            break;
                        }
                        // sweeps have their own, longer limit
                        if start.elapsed().as_secs_f64() > o.seconds * 4.0 + 30.0 {
                            break;
                        }
                    }
                    done.fetch_add(1, SeqCst);
                    acc
                })
                .unwrap(),
            );
        }
        // watchdog on per-case CPU time
        while done.load(SeqCst) < nthreads as u64 {
            std::thread::sleep(std::time::Duration::from_millis(if cfg!(miri) { 1 } else { 20 }));
            if cfg!(miri) {
                continue;
            }
            for t in 0..nthreads {
                let c = CUR[t].load(SeqCst);
                if c == u64::MAX || CLK[t].load(SeqCst) == 0 {
                    continue;
                }
                if done.load(SeqCst) > 0 {
                    // threads that ended have no readable clock any more; the
                    // others are checked through their own stored clock
                }
                let used = cpu_ns(CLK[t].load(SeqCst)).saturating_sub(CUR_CPU[t].load(SeqCst));
                if used as f64 > o.case_cpu_s * 1e9 && CUR[t].load(SeqCst) == c {
                    SLOT.with(|s| s.set(t));
                    die(78, "case CPU budget exceeded");
                }
            }
        }
        for h in hs {
            accs.push(h.join().unwrap());
        }
    });
    let mut a = Acc::default();
    for b in accs {
        a.evals += b.evals;
        a.checks += b.checks;
        a.calls += b.calls;
        a.panics += b.panics;
        a.distinct.extend(b.distinct);
        for (k, v) in b.skips {
            *a.skips.entry(k).or_insert(0) += v;
        }
        for (k, v) in b.tags {
            *a.tags.entry(k).or_insert(0) += v;
        }
        for (k, v) in b.streams {
            *a.streams.entry(k).or_insert(0) += v;
        }
        a.samples.extend(b.samples);
        a.viol.extend(b.viol);
        a.max_allocs = a.max_allocs.max(b.max_allocs);
        a.max_cpu_ns = a.max_cpu_ns.max(b.max_cpu_ns);
    }
    a.viol.sort_by(|x, y| (x.3.len(), x.0).cmp(&(y.3.len(), y.0)));
    a.samples.sort_by_key(|x| x.0);
    // samples spread over the run
    let n = a.samples.len();
    let take = 8.min(n);
    let samples: Vec<String> = (0..take).map(|i| &a.samples[i * n / take.max(1)]).map(|(i, s)| jstr(&format!("case {}: {}", i, trunc(s, 400)))).collect();
    let viols: Vec<String> = a
        .viol
        .iter()
        .take(20)
        .map(|(i, st, sig, msg)| format!("{{\"case\":{},\"stream\":{},\"sig\":{},\"msg\":{}}}", i, jstr(st), jstr(sig), jstr(&trunc(msg, 4000))))
        .collect();
    let js = format!(
        "{{\"property\":{},\"seed\":{},\"thorough\":{},\"rule\":{},\"evaluations\":{},\"distinct\":{},\"min_distinct\":{},\"sweep_total\":{},\"planned\":{},\"checks\":{},\"sut_calls\":{},\"sut_panics_observed\":{},\"skips\":{},\"tags\":{},\"streams\":{},\"samples\":[{}],\"violations\":[{}],\"max_case_allocs\":{},\"max_case_cpu_ms\":{:.3},\"seconds\":{:.3},\"harness_error\":{}}}",
        jstr(p.id), o.seed, o.thorough, jstr(p.rule), a.evals, a.distinct.len(), p.min_distinct, sweeps, total, a.checks, a.calls, a.panics,
        jmap(&a.skips), jmap(&a.tags), jmap(&a.streams), samples.join(","), viols.join(","), a.max_allocs, a.max_cpu_ns as f64 / 1e6,
        start.elapsed().as_secs_f64(), HARNESS_BUG.load(SeqCst)
    );
    if o.out.is_empty() {
        println!("{}", js);
    } else {
        std::fs::write(&o.out, js).expect("write result");
    }
    !HARNESS_BUG.load(SeqCst)
}
