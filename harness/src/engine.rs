//! The explorer: enumerates finite, indexed families of cases exhaustively, in
//! increasing order, on several threads, and judges every one of them.
//!
//! A case is identified by its family and its index, so that every violation
//! can be replayed alone.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Default)]
pub struct Fx(u64);

impl Hasher for Fx {
    fn finish(&self) -> u64 {
        // The low bits of a product depend only on the low bits of its
        // factors.
        let mut h = self.0;
        h ^= h >> 32;
        h = h.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^ (h >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut it = bytes.chunks_exact(8);
        for c in &mut it {
            self.write_u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        for &b in it.remainder() {
            self.write_u64(u64::from(b));
        }
    }
    fn write_u8(&mut self, n: u8) {
        self.write_u64(u64::from(n));
    }
    fn write_u32(&mut self, n: u32) {
        self.write_u64(u64::from(n));
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, n: usize) {
        self.write_u64(n as u64);
    }
}

pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

/// Distinct states that a worker remembers within a family.
const STATES_CAP: usize = 2_000_000;

const HANG: Duration = Duration::from_secs(if cfg!(miri) { 3600 } else { 90 });

// What a thread is working on, for the event that the process dies.

#[repr(C)]
struct Slot {
    family: [u8; 120],
    index: AtomicU64,
    active: AtomicU64,
}

pub const SLOTS: usize = 64;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

static SLOT_BASE: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());

pub fn open_slots(path: Option<&str>) {
    use std::os::unix::io::AsRawFd;
    let len = SLOTS * std::mem::size_of::<Slot>();
    let ptr = unsafe {
        if let Some(path) = path {
            let f = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)
                .expect("slot file");
            f.set_len(len as u64).expect("slot file");
            mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0)
        } else {
            Box::leak(vec![0_u64; len / 8].into_boxed_slice()).as_mut_ptr().cast()
        }
    };
    assert!(ptr as isize != -1, "mmap");
    SLOT_BASE.store(ptr.cast(), Relaxed);
}

fn slot(i: usize) -> *mut Slot {
    unsafe { SLOT_BASE.load(Relaxed).add(i) }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook(deaths_only: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let what = payload(info.payload());
        if what.starts_with("hooks left out") && !deaths_only {
            println!("NO ANSWER: {what}");
            std::process::exit(5);
        }
        let at = info
            .location()
            .map_or_else(String::new, |l| format!(" at {}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{what}{at}")));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`; a panic is returned as an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = PANIC.with(|p| p.borrow_mut().take());
        format!("panicked: {}", m.unwrap_or_default())
    })
}

/// The observations of a worker.
#[derive(Default)]
pub struct W {
    pub states: FxSet,
    pub states_capped: bool,
    pub transitions: u64,
    pub execs: u64,
    pub skipped: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
}

impl W {
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < STATES_CAP {
            self.states.insert(hash_of(t));
        } else {
            self.states_capped = true;
        }
    }

    /// Counts operations of the code under test.
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }

    pub fn outcome(&mut self, what: &'static str) {
        *self.outcomes.entry(what).or_default() += 1;
    }
}

pub type Verdict = Result<(), String>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub index: u64,
    pub case: String,
    pub what: String,
}

#[derive(Debug)]
pub struct FamStat {
    pub name: String,
    pub size: u64,
    pub execs: u64,
    pub states: u64,
    pub wall: f64,
}

pub enum Select {
    All,
    /// One case of one family.
    One(String, u64),
    /// The cases of one family up to an index, one after another.
    Prefix(String, u64),
}

pub struct Run {
    pub thorough: bool,
    pub threads: usize,
    pub stack: usize,
    pub select: Select,
    /// Only this many indices of each family.
    pub limit: u64,
    /// Only the indices `k` modulo `m`.
    pub shard: (u64, u64),
    /// Only the death of the process is of interest.
    pub deaths_only: bool,
    /// Tell of every case beforehand.
    pub trace: bool,
    pub families: Vec<FamStat>,
    pub states: u64,
    pub states_capped: bool,
    pub execs: u64,
    pub skipped: u64,
    pub transitions: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    all_states: FxSet,
}

pub fn clip(s: String) -> String {
    if s.len() <= 2000 {
        return s;
    }
    let mut a = 900;
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = s.len() - 900;
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{} ...[{} bytes]... {}", &s[..a], b - a, &s[b..])
}

impl Run {
    pub fn new(thorough: bool, threads: usize, stack: usize, select: Select) -> Self {
        Self {
            thorough,
            threads,
            stack,
            select,
            limit: u64::MAX,
            shard: (0, 1),
            deaths_only: false,
            trace: false,
            families: Vec::new(),
            states: 0,
            states_capped: false,
            execs: 0,
            skipped: 0,
            transitions: 0,
            outcomes: BTreeMap::new(),
            samples: Vec::new(),
            violation: None,
            all_states: FxSet::default(),
        }
    }

    /// Picks a bound by the tier.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Judges the cases `0..n`. `decode` returns `None` for an index that
    /// stands for no case.
    pub fn family<C, D, J>(&mut self, name: &str, n: u64, decode: D, judge: J)
    where
        C: Debug,
        D: Fn(u64) -> Option<C> + Sync,
        J: Fn(&C, &mut W) -> Verdict + Sync,
    {
        let show = |i: u64| decode(i).map(|c| format!("{c:?}"));
        let case = |i: u64, w: &mut W| match decode(i) {
            None => {
                w.skipped += 1;
                Ok(())
            }
            Some(c) => {
                w.execs += 1;
                judge(&c, w)
            }
        };
        self.indexed(name, n, &show, &case);
    }

    fn indexed(
        &mut self,
        name: &str,
        n: u64,
        show: &(dyn Fn(u64) -> Option<String> + Sync),
        judge: &(dyn Fn(u64, &mut W) -> Verdict + Sync),
    ) {
        if self.violation.is_some() {
            return;
        }
        let n = n.min(self.limit);
        let (shard, deaths_only, trace) = (self.shard, self.deaths_only, self.trace);
        let (from, to, threads) = match &self.select {
            Select::All => (0, n, self.threads),
            Select::One(f, i) if f == name => (*i, (*i + 1).min(n), 1),
            Select::Prefix(f, i) if f == name => (0, (*i + 1).min(n), 1),
            _ => return,
        };
        let one = matches!(self.select, Select::One(..));
        let started = Instant::now();
        let next = AtomicU64::new(from);
        let bad = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<Violation>> = Mutex::new(None);
        let done = AtomicBool::new(false);
        let chunk = ((to - from) / (threads as u64 * 64)).clamp(1, 4096);
        let mut results: Vec<W> = Vec::new();
        let seen: Vec<(AtomicU64, AtomicU64)> = (0..threads)
            .map(|_| (AtomicU64::new(0), AtomicU64::new(0)))
            .collect();
        std::thread::scope(|scope| {
            let handles: Vec<_> = (0..threads)
                .map(|t| {
                    let (next, bad, found) = (&next, &bad, &found);
                    let seen = &seen;
                    std::thread::Builder::new()
                        .stack_size(self.stack)
                        .spawn_scoped(scope, move || {
                            let mut w = W::default();
                            let s = slot(t);
                            unsafe {
                                let mut b = [0u8; 120];
                                let l = name.len().min(120);
                                b[..l].copy_from_slice(&name.as_bytes()[..l]);
                                (*s).family = b;
                            }
                            loop {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= to || a > bad.load(Relaxed) {
                                    break;
                                }
                                for i in a..(a + chunk).min(to) {
                                    if i > bad.load(Relaxed) {
                                        break;
                                    }
                                    if i % shard.1 != shard.0 {
                                        continue;
                                    }
                                    if trace {
                                        println!("AT {name} {i}");
                                    }
                                    unsafe {
                                        (*s).index.store(i, Relaxed);
                                        (*s).active.store(1, Relaxed);
                                    }
                                    seen[t].0.store(i + 1, Relaxed);
                                    let r = guard(|| {
                                        if one {
                                            println!("CASE {}", clip(show(i).unwrap_or_default()));
                                        }
                                        judge(i, &mut w)
                                    });
                                    unsafe {
                                        (*s).active.store(0, Relaxed);
                                    }
                                    let r = match r {
                                        Ok(r) => r,
                                        Err(e) => Err(e),
                                    };
                                    let r = if deaths_only { Ok(()) } else { r };
                                    if let Err(what) = r {
                                        let mut f = found.lock().unwrap();
                                        if bad.fetch_min(i, Relaxed) > i {
                                            let case = guard(|| show(i).unwrap_or_default())
                                                .unwrap_or_else(|e| e);
                                            *f = Some(Violation {
                                                family: name.to_string(),
                                                index: i,
                                                case: clip(case),
                                                what: clip(what),
                                            });
                                        }
                                        break;
                                    }
                                }
                            }
                            seen[t].0.store(0, Relaxed);
                            w
                        })
                        .expect("thread")
                })
                .collect();
            // Watch out for a case that does not end.
            let watch = {
                let (done, seen) = (&done, &seen);
                scope.spawn(move || {
                    let mut last: Vec<(u64, Instant)> =
                        seen.iter().map(|_| (0, Instant::now())).collect();
                    while !done.load(Relaxed) {
                        std::thread::park_timeout(Duration::from_millis(500));
                        for (t, l) in last.iter_mut().enumerate() {
                            let i = seen[t].0.load(Relaxed);
                            if i == 0 || i != l.0 {
                                *l = (i, Instant::now());
                            } else if l.1.elapsed() > HANG {
                                println!("HANG {} {}", name, i - 1);
                                std::process::exit(4);
                            }
                        }
                    }
                })
            };
            for h in handles {
                results.push(h.join().expect("worker"));
            }
            done.store(true, Relaxed);
            watch.thread().unpark();
        });
        let mut stat = FamStat {
            name: name.to_string(),
            size: to - from,
            execs: 0,
            states: 0,
            wall: 0.0,
        };
        let mut states = FxSet::default();
        for w in results {
            stat.execs += w.execs;
            self.skipped += w.skipped;
            self.transitions += w.transitions;
            self.states_capped |= w.states_capped;
            if states.is_empty() {
                states = w.states;
            } else {
                states.extend(w.states);
            }
            for (k, v) in w.outcomes {
                *self.outcomes.entry(k).or_default() += v;
            }
        }
        self.execs += stat.execs;
        stat.states = states.len() as u64;
        if self.all_states.len() < 40_000_000 {
            self.all_states.extend(states);
        } else {
            self.states_capped = true;
        }
        self.states = self.all_states.len() as u64;
        stat.wall = started.elapsed().as_secs_f64();
        if self.samples.len() < 8 && to > from {
            if let Ok(Some(c)) = guard(|| show(from + (to - from) * 2 / 3)) {
                let mut s = format!("{name}: {c}");
                if s.len() > 300 {
                    let mut e = 300;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                    s.push_str("...");
                }
                self.samples.push(s);
            }
        }
        self.families.push(stat);
        self.violation = found.into_inner().unwrap();
    }
}
