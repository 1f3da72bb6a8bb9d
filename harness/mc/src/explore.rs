//! Stateless exhaustive exploration of the real code.
//!
//! A *family* is a function that drives the code under test and asks the
//! [`Ctx`] for every decision that is not fixed: operations, inputs, faults,
//! schedules. The explorer enumerates the whole tree of decisions depth first
//! (optionally bounding the number of deviations from the default decision),
//! on all cores, and runs the function once per leaf. Nothing is sampled.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// FNV-style 64-bit hasher with a strong finish; stable across runs.
#[derive(Clone)]
pub struct Digest(u64);

impl Default for Digest {
    fn default() -> Self {
        Self(0xcbf29ce484222325)
    }
}

impl Hasher for Digest {
    fn write(&mut self, bytes: &[u8]) {
        let mut chunks = bytes.chunks_exact(8);
        for c in &mut chunks {
            self.mix(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let rest = chunks.remainder();
        if !rest.is_empty() {
            let mut b = [0u8; 8];
            b[..rest.len()].copy_from_slice(rest);
            b[7] = rest.len() as u8;
            self.mix(u64::from_le_bytes(b));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.mix(v.into())
    }
    fn write_u16(&mut self, v: u16) {
        self.mix(v.into())
    }
    fn write_u32(&mut self, v: u32) {
        self.mix(v.into())
    }
    fn write_u64(&mut self, v: u64) {
        self.mix(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.mix(v as u64)
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
        x ^ (x >> 33)
    }
}

impl Digest {
    fn mix(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x9e3779b97f4a7c15);
        self.0 ^= self.0 >> 29;
    }
}

/// The decisions of one execution, and what was observed in it. A handle that
/// can be cloned, so that simulated devices take part in the decisions.
#[derive(Clone)]
pub struct Ctx(Rc<Inner>);

struct Inner {
    script: Vec<u32>,
    trace: RefCell<Vec<(u32, u32)>>,
    dev_budget: Cell<usize>,
    digest: RefCell<Digest>,
    nontrivial: Cell<bool>,
    transitions: Cell<u64>,
    states: RefCell<Vec<u64>>,
    describe: bool,
    notes: RefCell<Vec<String>>,
    /// The steps of a periodic history: what was decided in each when it was
    /// first executed, and which one is being executed (and how far).
    period: RefCell<Vec<Vec<usize>>>,
    at: Cell<Option<(usize, usize, bool)>>,
}

impl Ctx {
    fn new(script: Vec<u32>, dev_bound: usize, describe: bool) -> Self {
        Self(Rc::new(Inner {
            script,
            trace: Default::default(),
            dev_budget: Cell::new(dev_bound),
            digest: Default::default(),
            nontrivial: Cell::new(false),
            transitions: Cell::new(0),
            states: Default::default(),
            describe,
            notes: Default::default(),
            period: Default::default(),
            at: Cell::new(None),
        }))
    }

    fn trace(&self) -> Vec<(u32, u32)> {
        self.0.trace.borrow().clone()
    }

    fn choices(&self) -> Vec<u32> {
        self.0.trace.borrow().iter().map(|(c, _)| *c).collect()
    }

    /// Takes a decision with `n` alternatives.
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0 && n < u32::MAX as usize, "harness: bad choice");
        if let Some((step, index, true)) = self.0.at.get() {
            self.0.at.set(Some((step, index + 1, true)));
            return self.0.period.borrow()[step].get(index).map_or(0, |c| c % n);
        }
        let mut trace = self.0.trace.borrow_mut();
        let c = self.0.script.get(trace.len()).copied().unwrap_or(0);
        assert!(
            (c as usize) < n,
            "harness: replayed choice {c} of {n} does not exist"
        );
        trace.push((c, n as u32));
        if let Some((step, _, false)) = self.0.at.get() {
            self.0.period.borrow_mut()[step].push(c as usize);
        }
        c as usize
    }

    /// Step `step` of a periodic history: when it comes again, the same is
    /// decided as when it came first.
    pub fn periodic(&self, step: usize) {
        let mut period = self.0.period.borrow_mut();
        let again = step < period.len();
        if !again {
            assert_eq!(step, period.len(), "harness: bad period");
            period.push(Vec::new());
        }
        self.0.at.set(Some((step, 0, again)));
    }

    /// The end of a periodic history.
    pub fn aperiodic(&self) {
        self.0.at.set(None);
    }

    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<'a, T>(&self, items: &'a [T]) -> &'a T {
        &items[self.choose(items.len())]
    }

    /// One of the numbers from `a` to `b` (inclusive).
    pub fn range(&self, a: usize, b: usize) -> usize {
        a + self.choose(b - a + 1)
    }

    /// A permutation of `0..n`.
    pub fn permutation(&self, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = Vec::new();
        while !rest.is_empty() {
            let i = self.choose(rest.len());
            out.push(rest.remove(i));
        }
        out
    }

    /// Takes a decision where anything but the default 0 uses up one of the
    /// family's allowed deviations.
    pub fn deviate(&self, n: usize) -> usize {
        if self.0.dev_budget.get() == 0 || n <= 1 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.0.dev_budget.set(self.0.dev_budget.get() - 1);
        }
        c
    }

    pub fn deviations_left(&self) -> usize {
        self.0.dev_budget.get()
    }

    /// The execution exercised the property.
    pub fn nontrivial(&self) {
        self.0.nontrivial.set(true)
    }

    /// Adds something observed to the digest that identifies this behaviour.
    pub fn obs<H: Hash + ?Sized>(&self, h: &H) {
        h.hash(&mut *self.0.digest.borrow_mut());
    }

    /// Records that the reference model went through a state.
    pub fn state<H: Hash + ?Sized>(&self, h: &H) {
        let mut d = Digest::default();
        h.hash(&mut d);
        self.0.states.borrow_mut().push(d.finish());
    }

    /// One operation was executed and compared with the oracle.
    pub fn step(&self) {
        self.0.transitions.set(self.0.transitions.get() + 1);
    }

    pub fn steps(&self, n: u64) {
        self.0.transitions.set(self.0.transitions.get() + n);
    }

    /// The decisions so far, for families in which each sequence is a case of
    /// its own.
    pub fn path(&self) -> Vec<u32> {
        self.choices()
    }

    /// Describes the case (only evaluated for samples and replays).
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.0.describe {
            let text = f();
            self.0.notes.borrow_mut().push(text);
        }
    }

    fn notes(&self) -> Vec<String> {
        self.0.notes.borrow().clone()
    }
}

pub type Case<'a> = &'a (dyn Fn(&Ctx) -> Result<(), String> + Sync);

#[derive(Default)]
pub struct Totals {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub transitions: u64,
    pub digests: HashSet<u64>,
    pub states: HashSet<u64>,
}

pub struct Violation {
    pub family: String,
    pub choices: Vec<u32>,
    pub message: String,
    pub notes: Vec<String>,
}

pub struct Explorer {
    pub property: &'static str,
    pub thorough: bool,
    pub totals: Totals,
    pub families: Vec<(String, u64, u64, f64)>,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    pub replay: Option<(String, Vec<u32>)>,
    pub replay_ran: bool,
    pub known: Vec<String>,
    pub known_hit: HashSet<String>,
    pub threads: usize,
    pub truncated: bool,
}

struct Slot {
    family: Mutex<String>,
    choices: Mutex<Vec<u32>>,
    running_since: AtomicU64,
    case_no: AtomicU64,
    clock: Mutex<Option<libc::clockid_t>>,
}

static SLOTS: Mutex<Vec<&'static Slot>> = Mutex::new(Vec::new());
static SAVE: Mutex<Option<&'static (dyn Fn(&Violation) + Sync + Send)>> = Mutex::new(None);

thread_local! {
    static MY_SLOT: Cell<Option<&'static Slot>> = const { Cell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// What one case may have allocated at once.
static MAX_LIVE_PER_CASE: AtomicI64 = AtomicI64::new(2 << 30);
/// CPU time that one case may take, in seconds.
static MAX_CPU_PER_CASE: AtomicI64 = AtomicI64::new(30);

/// Counts live memory per case and treats absurd allocations as violations,
/// instead of letting them take the machine down.
pub struct Guard;

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        check_alloc(layout.size());
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        check_alloc(layout.size());
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let _ = LIVE.try_with(|l| l.set(l.get() - layout.size() as i64));
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        check_alloc(new_size);
        let _ = LIVE.try_with(|l| l.set(l.get() - layout.size() as i64));
        System.realloc(ptr, layout, new_size)
    }
}

fn check_alloc(size: usize) {
    let live = LIVE
        .try_with(|l| {
            l.set(l.get() + size as i64);
            l.get()
        })
        .unwrap_or(0);
    if live > MAX_LIVE_PER_CASE.load(Ordering::Relaxed)
        && IN_CASE.try_with(|c| c.replace(false)).unwrap_or(false)
    {
        let _ = LIVE.try_with(|l| l.set(0));
        die(&format!(
            "unbounded memory: a single allocation of {size} bytes (live {live})"
        ));
    }
}

/// Reports the case that this thread is running as a violation and exits.
fn die(message: &str) -> ! {
    if let Some(slot) = MY_SLOT.try_with(|s| s.get()).ok().flatten() {
        report_slot(slot, message);
    }
    unsafe { libc::_exit(1) }
}

fn report_slot(slot: &Slot, message: &str) {
    let violation = Violation {
        family: slot.family.try_lock().map(|f| f.clone()).unwrap_or_default(),
        choices: slot
            .choices
            .try_lock()
            .map(|c| c.clone())
            .unwrap_or_default(),
        message: message.to_string(),
        notes: Vec::new(),
    };
    if let Ok(save) = SAVE.lock() {
        if let Some(save) = *save {
            save(&violation);
        }
    }
}

extern "C" fn on_fatal_signal(signal: libc::c_int) {
    if IN_CASE.try_with(|c| c.replace(false)).unwrap_or(false) {
        die(&format!(
            "the process was killed by signal {signal} (abort, stack overflow or memory error)"
        ));
    }
    unsafe { libc::_exit(2) }
}

pub fn install(save: impl Fn(&Violation) + Sync + Send + 'static) {
    *SAVE.lock().unwrap() = Some(Box::leak(Box::new(save)));
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "unknown panic".to_string()
        };
        let at = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_CASE.with(|c| c.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{message}{at}")));
        } else {
            eprintln!("harness panic: {message}{at}");
        }
    }));
    unsafe {
        for signal in [libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut action: libc::sigaction = std::mem::zeroed();
            action.sa_sigaction = on_fatal_signal as *const () as usize;
            action.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(signal, &action, std::ptr::null_mut());
        }
    }
    std::thread::spawn(watchdog);
}

fn watchdog() {
    let mut seen: Vec<(u64, f64)> = Vec::new();
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let slots: Vec<&'static Slot> = SLOTS.lock().unwrap().clone();
        seen.resize(slots.len(), (0, 0.0));
        for (slot, seen) in slots.iter().zip(seen.iter_mut()) {
            if slot.running_since.load(Ordering::Acquire) == 0 {
                *seen = (0, 0.0);
                continue;
            }
            let Some(clock) = *slot.clock.lock().unwrap() else {
                continue;
            };
            let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
            if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
                continue;
            }
            let cpu = ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9;
            let case_no = slot.case_no.load(Ordering::Acquire);
            if seen.0 != case_no {
                *seen = (case_no, cpu);
            } else if cpu - seen.1 > MAX_CPU_PER_CASE.load(Ordering::Relaxed) as f64 {
                report_slot(
                    slot,
                    &format!("no end: still running after {:.1} s of CPU time", cpu - seen.1),
                );
                unsafe { libc::_exit(1) }
            }
        }
    }
}

/// Runs `f`, turning a panic of the code under test into an error.
fn run_case(f: Case, script: &[u32], dev_bound: usize, describe: bool) -> (Ctx, Result<(), String>) {
    let ctx = Ctx::new(script.to_vec(), dev_bound, describe);
    LIVE.with(|l| l.set(0));
    IN_CASE.with(|c| c.set(true));
    let result = catch_unwind(AssertUnwindSafe(|| f(&ctx)));
    IN_CASE.with(|c| c.set(false));
    let result = match result {
        Ok(result) => result,
        Err(_) => {
            let message = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".to_string());
            if message.starts_with("harness:") {
                eprintln!("{message}");
                unsafe { libc::_exit(2) }
            }
            Err(format!("panic: {message}"))
        }
    };
    (ctx, result)
}

struct Shared<'a> {
    queue: Mutex<VecDeque<Vec<u32>>>,
    idle: AtomicUsize,
    stop: AtomicBool,
    wake: Condvar,
    f: Case<'a>,
    family: &'a str,
    dev_bound: usize,
    threads: usize,
}

impl Explorer {
    pub fn new(property: &'static str, thorough: bool) -> Self {
        let threads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
                    .min(8)
            });
        Self {
            property,
            thorough,
            totals: Totals::default(),
            families: Vec::new(),
            samples: Vec::new(),
            violation: None,
            replay: None,
            replay_ran: false,
            known: Vec::new(),
            known_hit: HashSet::new(),
            threads,
            truncated: false,
        }
    }

    /// From now on no case may have more memory allocated at once.
    pub fn limit_memory(&mut self, bytes: i64) {
        MAX_LIVE_PER_CASE.store(bytes, Ordering::Relaxed);
    }

    /// From now on no case may take more CPU time.
    pub fn limit_cpu(&mut self, seconds: i64) {
        MAX_CPU_PER_CASE.store(seconds, Ordering::Relaxed);
    }

    pub fn family(
        &mut self,
        name: &str,
        f: impl Fn(&Ctx) -> Result<(), String> + Sync,
    ) {
        self.bounded(name, 0, f)
    }

    /// Explores every execution of `f` with at most `dev_bound` deviations.
    pub fn bounded(
        &mut self,
        name: &str,
        dev_bound: usize,
        f: impl Fn(&Ctx) -> Result<(), String> + Sync,
    ) {
        if let Some((family, choices)) = self.replay.clone() {
            if family == name {
                self.replay_ran = true;
                self.run_replay(name, dev_bound, &f, &choices);
            }
            return;
        }
        if self.violation.is_some() {
            return;
        }
        let start = Instant::now();
        let shared = Shared {
            queue: Mutex::new(VecDeque::from([Vec::new()])),
            idle: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            wake: Condvar::new(),
            f: &f,
            family: name,
            dev_bound,
            threads: self.threads,
        };
        let known = &self.known;
        let property = self.property;
        let results: Vec<_> = std::thread::scope(|scope| {
            let handles: Vec<_> = (0..self.threads)
                .map(|_| scope.spawn(|| worker(&shared, known, property)))
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut evaluations = 0;
        let mut nontrivial = 0;
        let mut samples = Vec::new();
        for r in results {
            evaluations += r.totals.evaluations;
            nontrivial += r.totals.nontrivial;
            self.totals.evaluations += r.totals.evaluations;
            self.totals.nontrivial += r.totals.nontrivial;
            self.totals.transitions += r.totals.transitions;
            self.totals.digests.extend(r.totals.digests);
            self.totals.states.extend(r.totals.states);
            self.known_hit.extend(r.known_hit);
            samples.extend(r.samples);
            if self.violation.is_none() {
                self.violation = r.violation;
            }
        }
        samples.truncate(2);
        self.samples.extend(samples);
        self.families.push((
            name.to_string(),
            evaluations,
            nontrivial,
            start.elapsed().as_secs_f64(),
        ));
    }

    fn run_replay(&mut self, name: &str, dev_bound: usize, f: Case, choices: &[u32]) {
        let slot = new_slot(name);
        set_slot(slot, choices);
        let (ctx, result) = run_case(f, choices, dev_bound, true);
        slot.running_since.store(0, Ordering::Release);
        for note in &ctx.notes() {
            println!("  {note}");
        }
        match result {
            Ok(()) => println!("replay: family {name}: the property held"),
            Err(message) => {
                println!("replay: family {name}: {message}");
                self.violation = Some(Violation {
                    family: name.to_string(),
                    choices: choices.to_vec(),
                    message,
                    notes: ctx.notes(),
                });
            }
        }
    }
}

fn new_slot(family: &str) -> &'static Slot {
    if let Some(slot) = MY_SLOT.with(|s| s.get()) {
        *slot.family.lock().unwrap() = family.to_string();
        return slot;
    }
    let mut clock: libc::clockid_t = 0;
    let ok = unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) } == 0;
    let slot: &'static Slot = Box::leak(Box::new(Slot {
        family: Mutex::new(family.to_string()),
        choices: Mutex::new(Vec::new()),
        running_since: AtomicU64::new(0),
        case_no: AtomicU64::new(0),
        clock: Mutex::new(if ok { Some(clock) } else { None }),
    }));
    SLOTS.lock().unwrap().push(slot);
    MY_SLOT.with(|s| s.set(Some(slot)));
    slot
}

fn set_slot(slot: &Slot, choices: &[u32]) {
    {
        let mut c = slot.choices.lock().unwrap();
        c.clear();
        c.extend_from_slice(choices);
    }
    slot.case_no.fetch_add(1, Ordering::AcqRel);
    slot.running_since.store(1, Ordering::Release);
}

struct WorkerResult {
    totals: Totals,
    samples: Vec<String>,
    violation: Option<Violation>,
    known_hit: HashSet<String>,
}

fn worker(shared: &Shared, known: &[String], property: &str) -> WorkerResult {
    let slot = new_slot(shared.family);
    let mut out = WorkerResult {
        totals: Totals::default(),
        samples: Vec::new(),
        violation: None,
        known_hit: HashSet::new(),
    };
    'work: loop {
        let prefix = {
            let mut queue = shared.queue.lock().unwrap();
            loop {
                if shared.stop.load(Ordering::Acquire) {
                    break 'work;
                }
                if let Some(p) = queue.pop_front() {
                    break p;
                }
                let idle = shared.idle.fetch_add(1, Ordering::AcqRel) + 1;
                if idle == shared.threads {
                    shared.stop.store(true, Ordering::Release);
                    shared.wake.notify_all();
                    break 'work;
                }
                queue = shared.wake.wait(queue).unwrap();
                shared.idle.fetch_sub(1, Ordering::AcqRel);
            }
        };
        // Depth-first search below `prefix`; `base` grows when siblings are
        // handed to idle workers.
        let mut base = prefix.len();
        let mut script = prefix;
        loop {
            if shared.stop.load(Ordering::Acquire) {
                break 'work;
            }
            set_slot(slot, &script);
            let describe = out.totals.evaluations.is_multiple_of(1 << 14) && out.samples.len() < 2;
            let (ctx, result) = run_case(shared.f, &script, shared.dev_bound, describe);
            slot.running_since.store(0, Ordering::Release);
            out.totals.evaluations += 1;
            out.totals.transitions += ctx.0.transitions.get();
            if ctx.0.nontrivial.get() {
                out.totals.nontrivial += 1;
                let mut digest = Digest::default();
                digest.write(shared.family.as_bytes());
                let observed = ctx.0.digest.borrow().finish();
                if observed == Digest::default().finish() {
                    // The family does not say what it did: every decision
                    // sequence counts as a case of its own.
                    ctx.choices().hash(&mut digest);
                }
                digest.write_u64(observed);
                out.totals.digests.insert(digest.finish());
            }
            out.totals.states.extend(ctx.0.states.borrow().iter());
            if describe && ctx.0.nontrivial.get() {
                out.samples.push(format!(
                    "{} {:?}: {}",
                    shared.family,
                    ctx.choices(),
                    ctx.notes().join("; ")
                ));
            }
            if let Err(mut message) = result {
                let choices = ctx.choices();
                // An execution is decided by its choices, unless the code
                // under test keeps something from one to the next, or depends
                // on the order of a hash table. That may not break a property
                // either, but has to be known to understand the failure.
                let again = (0..2).all(|_| run_case(shared.f, &choices, shared.dev_bound, false).1.is_err());
                if !again {
                    eprintln!("{property} {}: it does not fail each time", shared.family);
                    message += " (not each time: it depends on what the process did before, or on chance)";
                }
                let key = format!("{}:{:?}", shared.family, choices);
                if known.iter().any(|k| *k == key) {
                    out.known_hit.insert(key);
                } else {
                    let (ctx, _) = run_case(shared.f, &choices, shared.dev_bound, true);
                    out.violation = Some(Violation {
                        family: shared.family.to_string(),
                        choices,
                        message,
                        notes: ctx.notes(),
                    });
                    shared.stop.store(true, Ordering::Release);
                    shared.wake.notify_all();
                    break 'work;
                }
            }
            // Hand work to idle threads: split off the siblings at the
            // shallowest open decision.
            let trace = ctx.trace();
            if shared.idle.load(Ordering::Acquire) > 0 {
                let mut i = base;
                while i < trace.len() && trace[i].0 + 1 >= trace[i].1 {
                    i += 1;
                }
                if i < trace.len() {
                    let head: Vec<u32> = trace[..i].iter().map(|(c, _)| *c).collect();
                    let mut queue = shared.queue.lock().unwrap();
                    for alternative in trace[i].0 + 1..trace[i].1 {
                        let mut p = head.clone();
                        p.push(alternative);
                        queue.push_back(p);
                    }
                    drop(queue);
                    shared.wake.notify_all();
                    base = i + 1;
                }
            }
            // Backtrack.
            let mut i = trace.len();
            while i > base && trace[i - 1].0 + 1 >= trace[i - 1].1 {
                i -= 1;
            }
            if i <= base {
                break;
            }
            script.clear();
            script.extend(trace[..i].iter().map(|(c, _)| *c));
            script[i - 1] += 1;
        }
    }
    out
}
