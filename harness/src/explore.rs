//! The explorer: exhaustive depth-first enumeration of a choice tree, executed in parallel.
//!
//! A family is a function of the choices it asks for. Every complete choice vector is executed
//! exactly once; a subtree is owned by one thread at a time and idle threads are handed the
//! shallowest unexplored siblings of a busy one.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// quick value or thorough value
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// Source of all decisions of one execution.
pub struct Ch {
    prefix: Vec<u32>,
    /// (chosen, number of alternatives)
    pub log: Vec<(u32, u32)>,
    budget: u32,
}

impl Ch {
    pub fn new(prefix: Vec<u32>) -> Ch {
        Ch {
            prefix,
            log: Vec::new(),
            budget: 0,
        }
    }

    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        if n == 1 {
            return 0;
        }
        let at = self.log.len();
        let c = if at < self.prefix.len() {
            let c = self.prefix[at];
            assert!((c as usize) < n, "replay diverged: choice {at} is {c} of {n}");
            c
        } else {
            0
        };
        self.log.push((c, n as u32));
        c as usize
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        let i = self.choose(from.len());
        &from[i]
    }

    pub fn word<'a>(&mut self, from: &[&'a str]) -> &'a str {
        from[self.choose(from.len())]
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }

    /// How many departures from the default `deviate` may make from here on.
    pub fn set_budget(&mut self, n: usize) {
        self.budget = n as u32;
    }

    pub fn budget(&self) -> usize {
        self.budget as usize
    }

    /// Like choose, but any answer other than 0 costs one deviation.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.budget == 0 || n <= 1 {
            return 0;
        }
        let c = self.choose(n);
        if c > 0 {
            self.budget -= 1;
        }
        c
    }
}

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut it = bytes.chunks_exact(8);
        for c in &mut it {
            self.write_u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let r = it.remainder();
        if !r.is_empty() {
            let mut b = [0u8; 8];
            b[..r.len()].copy_from_slice(r);
            self.write_u64(u64::from_le_bytes(b) ^ ((r.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64);
    }
}

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
type IdSet = HashSet<u64, BuildHasherDefault<Ident>>;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub choices: Vec<u32>,
    /// Identifies the failing input; what known findings are matched against.
    pub key: String,
    pub detail: String,
}

const SHARDS: usize = 256;

pub struct Shared {
    shards: Vec<Mutex<IdSet>>,
    pub state_cap: usize,
    pub states_dropped: AtomicU64,
    pub n_states: AtomicU64,
}

impl Shared {
    pub fn new(state_cap: usize) -> Shared {
        Shared {
            shards: (0..SHARDS).map(|_| Mutex::new(IdSet::default())).collect(),
            state_cap,
            states_dropped: AtomicU64::new(0),
            n_states: AtomicU64::new(0),
        }
    }
    pub fn insert(&self, h: u64) -> bool {
        let mut s = self.shards[(h >> 56) as usize % SHARDS].lock().unwrap();
        if s.len() >= self.state_cap / SHARDS {
            if !s.contains(&h) {
                self.states_dropped.fetch_add(1, Ordering::Relaxed);
            }
            return false;
        }
        let new = s.insert(h);
        if new {
            self.n_states.fetch_add(1, Ordering::Relaxed);
        }
        new
    }
}

/// Per-thread collector of what an execution observed.
pub struct Cx<'a> {
    pub shared: &'a Shared,
    pub family: &'a str,
    pub tier: Tier,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    fails: Vec<(String, String)>,
    pub case: String,
}

impl<'a> Cx<'a> {
    pub fn new(shared: &'a Shared, family: &'a str, tier: Tier) -> Cx<'a> {
        Cx {
            shared,
            family,
            tier,
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            fails: Vec::new(),
            case: String::new(),
        }
    }

    /// Record a distinct state (input, document, model state) by content.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        let mut h = Fx::default();
        self.family.hash(&mut h);
        t.hash(&mut h);
        self.shared.insert(h.finish())
    }

    /// One execution of the implementation was compared with the reference.
    pub fn trace(&mut self) {
        self.traces += 1;
    }

    pub fn step(&mut self, n: usize) {
        self.transitions += n as u64;
    }

    pub fn outcome(&mut self, name: &'static str) {
        *self.outcomes.entry(name).or_insert(0) += 1;
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let n = self.traces;
        if self.samples.len() < 3 || (n.is_power_of_two() && self.samples.len() < 12) {
            let s = f();
            self.samples.push(clip(&s, 300));
        }
    }

    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.fails.push((key.into(), detail.into()));
    }

    pub fn expect(&mut self, ok: bool, f: impl FnOnce() -> (String, String)) {
        if !ok {
            let (k, d) = f();
            self.fail(k, d);
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}...({} bytes)", &s[..i], s.len())
}

pub type Run = Box<dyn Fn(&mut Ch, &mut Cx) + Send + Sync>;

pub struct Family {
    pub name: &'static str,
    pub bound: String,
    pub run: Run,
}

pub fn family(
    name: &'static str,
    bound: impl Into<String>,
    run: impl Fn(&mut Ch, &mut Cx) + Send + Sync + 'static,
) -> Family {
    Family {
        name,
        bound: bound.into(),
        run: Box::new(run),
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run something that may panic; Err carries the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// A slot of the shared progress page, one per thread, readable by the supervisor.
pub const SLOT_WORDS: usize = 16384;
#[derive(Clone, Copy)]
pub struct Slot(pub *mut u32);
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

impl Slot {
    // words: 0 busy, 1 counter, 2 family index, 3 length, 4.. choices of the current prefix
    fn begin(self, fam: usize, prefix: &[u32]) {
        if self.0.is_null() {
            return;
        }
        unsafe {
            let n = prefix.len().min(SLOT_WORDS - 8);
            self.0.add(0).write_volatile(0);
            self.0.add(2).write_volatile(fam as u32);
            self.0.add(3).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), self.0.add(4), n);
            let c = self.0.add(1).read_volatile();
            self.0.add(1).write_volatile(c.wrapping_add(1));
            std::sync::atomic::compiler_fence(Ordering::SeqCst);
            self.0.add(0).write_volatile(1);
        }
    }
    fn end(self) {
        if self.0.is_null() {
            return;
        }
        unsafe { self.0.write_volatile(0) }
    }
}

struct Queue {
    work: Mutex<(Vec<Vec<u32>>, usize, bool)>, // prefixes, busy threads, done
    cv: Condvar,
    hungry: AtomicUsize,
}

#[derive(Default)]
pub struct Totals {
    pub transitions: u64,
    pub traces: u64,
    pub executions: u64,
    pub max_depth: usize,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub complete: bool,
}

/// Execute one choice vector; the log is the full path taken.
pub fn execute(fam: &Family, prefix: Vec<u32>, cx: &mut Cx) -> Vec<(u32, u32)> {
    let plen = prefix.len();
    let mut ch = Ch::new(prefix);
    cx.case.clear();
    let r = panic::catch_unwind(AssertUnwindSafe(|| (fam.run)(&mut ch, cx)));
    if r.is_err() {
        let p = last_panic();
        let case = cx.case.clone();
        cx.fail(
            format!("panic {case}"),
            format!("panic: {p}; case: {case}"),
        );
    }
    let fresh = ch.log.len() - plen.saturating_sub(1).min(ch.log.len());
    cx.transitions += fresh as u64;
    if !cx.fails.is_empty() {
        let choices: Vec<u32> = ch.log.iter().map(|c| c.0).collect();
        for (key, detail) in std::mem::take(&mut cx.fails) {
            if cx.violations.len() < 400 {
                cx.violations.push(Violation {
                    family: cx.family.to_owned(),
                    choices: choices.clone(),
                    key,
                    detail,
                });
            }
        }
    }
    ch.log
}

pub struct Explorer<'a> {
    pub shared: &'a Shared,
    pub tier: Tier,
    pub threads: usize,
    pub deadline: Instant,
    pub slots: Vec<Slot>,
    pub max_violations: usize,
    pub is_known: &'a (dyn Fn(&Violation) -> bool + Sync),
}

impl<'a> Explorer<'a> {
    pub fn run(&self, fam: &Family, fam_index: usize) -> Totals {
        let q = Queue {
            work: Mutex::new((vec![vec![]], 0, false)),
            cv: Condvar::new(),
            hungry: AtomicUsize::new(0),
        };
        let stop = AtomicBool::new(false);
        let n_viol = AtomicU32::new(0);
        let out: Mutex<Totals> = Mutex::new(Totals {
            complete: true,
            ..Totals::default()
        });
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (q, stop, n_viol, out) = (&q, &stop, &n_viol, &out);
                let slot = self.slots.get(t).copied().unwrap_or(Slot(std::ptr::null_mut()));
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let mut cx = Cx::new(self.shared, fam.name, self.tier);
                        let mut execs = 0u64;
                        let mut max_depth = 0usize;
                        'outer: loop {
                            let root = {
                                let mut g = q.work.lock().unwrap();
                                loop {
                                    if g.2 {
                                        break 'outer;
                                    }
                                    if let Some(p) = g.0.pop() {
                                        g.1 += 1;
                                        break p;
                                    }
                                    if g.1 == 0 {
                                        g.2 = true;
                                        q.cv.notify_all();
                                        break 'outer;
                                    }
                                    q.hungry.fetch_add(1, Ordering::Relaxed);
                                    g = q.cv.wait(g).unwrap();
                                    q.hungry.fetch_sub(1, Ordering::Relaxed);
                                }
                            };
                            let mut base = root.len();
                            let mut prefix = root;
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                slot.begin(fam_index, &prefix);
                                let before = cx.violations.len();
                                let mut log = execute(fam, prefix, &mut cx);
                                slot.end();
                                execs += 1;
                                max_depth = max_depth.max(log.len());
                                if cx.violations.len() > before {
                                    let new = cx.violations[before..]
                                        .iter()
                                        .filter(|v| !(self.is_known)(v))
                                        .count() as u32;
                                    let total = n_viol.fetch_add(new, Ordering::Relaxed) + new;
                                    if total as usize >= self.max_violations {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                if execs & 63 == 0 && Instant::now() > self.deadline {
                                    stop.store(true, Ordering::Relaxed);
                                    out.lock().unwrap().complete = false;
                                }
                                // hand out the shallowest unexplored siblings
                                if q.hungry.load(Ordering::Relaxed) > 0 {
                                    if let Some(i) =
                                        (base..log.len()).find(|&i| log[i].0 + 1 < log[i].1)
                                    {
                                        let mut g = q.work.lock().unwrap();
                                        for alt in (log[i].0 + 1..log[i].1).rev() {
                                            let mut p: Vec<u32> =
                                                log[..i].iter().map(|c| c.0).collect();
                                            p.push(alt);
                                            g.0.push(p);
                                        }
                                        drop(g);
                                        q.cv.notify_all();
                                        base = i + 1;
                                    }
                                }
                                // next leaf of this subtree
                                while log.len() > base {
                                    let (c, n) = *log.last().unwrap();
                                    if c + 1 < n {
                                        break;
                                    }
                                    log.pop();
                                }
                                if log.len() <= base {
                                    break;
                                }
                                log.last_mut().unwrap().0 += 1;
                                prefix = log.iter().map(|c| c.0).collect();
                            }
                            let mut g = q.work.lock().unwrap();
                            g.1 -= 1;
                            if stop.load(Ordering::Relaxed) {
                                g.2 = true;
                            }
                            if g.2 || (g.0.is_empty() && g.1 == 0) {
                                g.2 = true;
                                q.cv.notify_all();
                            }
                        }
                        let mut o = out.lock().unwrap();
                        o.transitions += cx.transitions;
                        o.traces += cx.traces;
                        o.executions += execs;
                        o.max_depth = o.max_depth.max(max_depth);
                        for (k, v) in cx.outcomes {
                            *o.outcomes.entry(k.to_owned()).or_insert(0) += v;
                        }
                        o.samples.extend(cx.samples);
                        o.violations.extend(cx.violations);
                    })
                    .expect("spawn");
            }
        });
        let mut t = out.into_inner().unwrap();
        if stop.load(Ordering::Relaxed) && n_viol.load(Ordering::Relaxed) > 0 {
            t.complete = false;
        }
        t
    }
}

/// Bounded wait used by nothing in the exploration itself; kept for the supervisor.
pub fn after(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
