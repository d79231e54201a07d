//! Compilations do not depend on history.
//!
//! A history of calls is made in a process of its own, and each call is
//! compared with the same call as the only one of a process. The calls of a
//! history are spread over two threads; in addition, two calls are interleaved
//! at the steps of their compilations by a controlled scheduler.

use crate::dom::{self, item, Item, Job, Obs};
use crate::engine::{hash_of, Run, Verdict, W};
use crate::ensure;
use rescan::verif::{self, Limits};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

// The calls.

const NAMES: &[&str] = &[
    "literal",
    "caseless-single-match",
    "alternatives-quiet",
    "list",
    "unmatched",
    "foreign-in-list",
    "conflict",
    "unknown-verb",
    "verb-utf8",
    "verb-ucp-groups",
    "empty-list",
    "scan",
    "flags",
    "missing-close",
    "report-limit",
    "as-automata",
    "small-write-off",
    "long-list",
    "too-long",
    "nested",
];

fn calls() -> usize {
    NAMES.len()
}

/// Numbers from here on are those of the wide domain.
const WIDE: usize = 1000;

/// Many fast calls.
fn wide() -> &'static [Job] {
    static JOBS: OnceLock<Vec<Job>> = OnceLock::new();
    JOBS.get_or_init(|| {
        let mut v = Vec::new();
        for (k, e) in dom::SHORT.iter().enumerate() {
            for (n, f) in dom::FLAG_SETS.iter().enumerate() {
                v.push(Job {
                    items: vec![item(e, *f, dom::IDS[(k + n) % dom::IDS.len()])],
                    mode: ((k + n) % 6) as u8,
                    limits: None,
                });
            }
        }
        for t in dom::TEMPLATES {
            for n in [3, 20, 130] {
                v.push(Job {
                    items: vec![item(&t.1(n), (n % 2) as u16, 0)],
                    mode: 0,
                    limits: None,
                });
            }
        }
        let elements = dom::elements();
        for i in 0..(1 + elements.len() + elements.len() * elements.len()) as u64 {
            v.push(dom::list(i, &elements));
        }
        for kind in 0..dom::LONG_LISTS {
            for n in [3, 60] {
                v.push(dom::long_list(kind, n));
            }
        }
        // Other settings, with single expressions and lists.
        let d = Limits::default;
        let settings = [
            Limits { pattern_length: 0, ..d() },
            Limits { pattern_length: 3, ..d() },
            Limits { pattern_count: 0, ..d() },
            Limits { pattern_count: 1, ..d() },
            Limits { report_count: 0, ..d() },
            Limits { report_count: 1, ..d() },
            Limits { allow_literal: false, ..d() },
            Limits { shortcut_literals: false, ..d() },
            Limits { allow_small_write: false, ..d() },
            Limits { small_write_largest_buffer: 2, ..d() },
            Limits { small_write_max_patterns: 1, ..d() },
            Limits { small_write_max_literals: 1, ..d() },
        ];
        for l in settings {
            for items in [
                vec![item("abc", 0, 0)],
                vec![item("a|bcde", 0x0001, 1)],
                vec![item("abcdefgh", 0, 0)],
                vec![item("ab", 0x0009, 0), item("abc", 0, 1)],
                vec![item("x", 0, 2), item("(y)", 0, 3), item("abcd", 0, 4)],
            ] {
                v.push(Job {
                    items,
                    mode: 0,
                    limits: Some(l.clone()),
                });
            }
        }
        assert!(v.len() < WIDE);
        v
    })
}

fn name(call: usize) -> String {
    match NAMES.get(call) {
        Some(n) => n.to_string(),
        None => format!("{:?}", job(call)),
    }
}

fn job(call: usize) -> Job {
    if call >= WIDE {
        return wide()[call - WIDE].clone();
    }
    let j = |items: Vec<Item>, mode: u8, limits: Option<Limits>| Job { items, mode, limits };
    match NAMES[call] {
        "literal" => j(vec![item("abc", 0, 0)], 0, None),
        "caseless-single-match" => j(vec![item("(aB)5", 0x0009, 0)], 2, None),
        "alternatives-quiet" => j(vec![item("x(a|)|B", 0x0400, 3)], 1, None),
        "list" => j(
            vec![
                item("abc", 0, 0),
                item("d", 0x0008, 2),
                item("(x)y", 0x0408, 2),
                item("a|b", 1, 0),
            ],
            0,
            None,
        ),
        "unmatched" => j(vec![item("(a)b)c", 0, 0)], 0, None),
        "foreign-in-list" => j(vec![item("a", 8, 1), item("(b)c", 0, 0), item("(zé", 0, 4)], 3, None),
        "conflict" => j(vec![item("a", 0x0008, 1), item("a|b", 0, 2), item("c", 0, 1)], 0, None),
        "unknown-verb" => j(vec![item("(*NO_JIT)a", 1, 0)], 0, None),
        "verb-utf8" => j(vec![item("(*UTF8)ab", 0, 0)], 0, None),
        "verb-ucp-groups" => j(vec![item("(*UCP)((a)|(b()))", 0, 0)], 4, None),
        "empty-list" => j(vec![], 0, None),
        "scan" => j(vec![item("abc", 1, 7), item("xyz", 0, 8)], 1, None),
        "flags" => j(vec![item("q(R)", 0x06f7, 1)], 5, None),
        "missing-close" => j(vec![item("a(b(c)", 0, 0)], 0, None),
        "report-limit" => j(
            vec![item("a", 0, 5), item("b", 0, 6), item("c", 0, 7)],
            0,
            Some(Limits {
                report_count: 2,
                ..Limits::default()
            }),
        ),
        "as-automata" => j(
            vec![item("ab", 1, 1), item("c", 0, 1)],
            0,
            Some(Limits {
                allow_literal: false,
                ..Limits::default()
            }),
        ),
        "small-write-off" => j(
            vec![item("ab", 1, 1), item("abc", 0, 2)],
            0,
            Some(Limits {
                allow_small_write: false,
                ..Limits::default()
            }),
        ),
        "long-list" => dom::long_list(5, 300),
        "too-long" => j(vec![item(&"a".repeat(16_001), 0, 0)], 0, None),
        _ => j(
            vec![item(&("(".repeat(300) + "a" + &")".repeat(300)), 1, 0), item("z", 0, 1)],
            0,
            None,
        ),
    }
}

/// Makes a call.
fn call(c: usize) -> Obs {
    let j = job(c);
    if NAMES.get(c) == Some(&"scan") {
        if let Ok(db) = dom::compile(&j) {
            let mut scratch = verif::new_scratch();
            let _ = rescan::scan(&db, b"abcxyzABC", &mut scratch);
            let _ = rescan::scan(&db, &[0; 300], &mut scratch);
        }
    }
    // Also the case of a single expression, which is another function.
    dom::observe(&j)
}

// What happens in a process.

/// Results of calls, in the order of their first appearance.
#[derive(Default)]
struct Log {
    seen: BTreeMap<(usize, u64), (u64, String)>,
    made: u64,
    runs: u64,
}

impl Log {
    fn add(&mut self, c: usize, o: &Obs) {
        self.made += 1;
        let made = self.made;
        self.seen
            .entry((c, hash_of(o)))
            .or_insert_with(|| (made, format!("{o:?}").chars().take(1500).collect()));
    }

    fn print(&self) {
        for ((c, h), (n, what)) in &self.seen {
            println!("CALL {c} {h:x} {n} {}", what.replace('\n', " "));
        }
        println!("END {} {}", self.made, self.runs);
    }
}

/// The scheduler of two threads: which one may run, and when to switch.
struct Sched {
    state: Mutex<SchedState>,
    cond: Condvar,
}

struct SchedState {
    turn: usize,
    step: u64,
    switches: Vec<u64>,
    done: [bool; 2],
}

impl Sched {
    fn wait(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.turn != me {
            s = self.cond.wait(s).unwrap();
        }
    }

    /// At each step: switches to the other thread, if it is time.
    fn step(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.step += 1;
        let now = s.step;
        if s.switches.contains(&now) && !s.done[1 - me] {
            s.turn = 1 - me;
            self.cond.notify_all();
            while s.turn != me {
                s = self.cond.wait(s).unwrap();
            }
        }
    }

    fn end(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.done[me] = true;
        s.turn = 1 - me;
        self.cond.notify_all();
    }
}

fn interleave(cs: [usize; 2], first: usize, switches: &[u64]) -> [Obs; 2] {
    let sched = Arc::new(Sched {
        state: Mutex::new(SchedState {
            turn: first,
            step: 0,
            switches: switches.to_vec(),
            done: [false; 2],
        }),
        cond: Condvar::new(),
    });
    let handles: Vec<_> = (0..2)
        .map(|me| {
            let sched = sched.clone();
            std::thread::spawn(move || {
                sched.wait(me);
                let s = sched.clone();
                verif::on_step(Some(Box::new(move |_| s.step(me))));
                let r = std::panic::catch_unwind(|| call(cs[me]));
                verif::on_step(None);
                sched.end(me);
                r.expect("panic")
            })
        })
        .collect();
    let mut v: Vec<Obs> = handles.into_iter().map(|h| h.join().expect("panic")).collect();
    let b = v.pop().expect("two");
    [v.pop().expect("two"), b]
}

/// The number of steps of a call.
fn steps(c: usize) -> u64 {
    let n = Arc::new(Mutex::new(0));
    let m = n.clone();
    verif::on_step(Some(Box::new(move |_| *m.lock().unwrap() += 1)));
    let _ = call(c);
    verif::on_step(None);
    let n = *n.lock().unwrap();
    n
}

/// All sets of up to `k` of the numbers from `from` to `n`.
fn choices(n: u64, k: u32, from: u64, cur: &mut Vec<u64>, f: &mut dyn FnMut(&[u64])) {
    f(cur);
    if k == 0 {
        return;
    }
    for i in from..=n {
        cur.push(i);
        choices(n, k - 1, i + 1, cur, f);
        cur.pop();
    }
}

/// A process: the kind of history, and its numbers.
pub fn child(args: &[String]) {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(75));
        println!("HANG");
        std::process::exit(5);
    });
    let nums: Vec<u64> = args[1..].iter().map(|a| a.parse().expect("number")).collect();
    let c = |i: usize| nums[i] as usize;
    let mut log = Log::default();
    match args[0].as_str() {
        "steps" => {
            println!("STEPS {}", steps(c(0)));
            return;
        }
        // Calls with the thread that makes them.
        "calls" => {
            use std::sync::mpsc::channel;
            let (to, from) = channel::<usize>();
            let (back, res) = channel();
            let other = std::thread::spawn(move || {
                for c in from {
                    back.send(call(c)).expect("sent");
                }
            });
            for p in nums.chunks(2) {
                let c = p[0] as usize;
                let o = if p[1] == 0 {
                    call(c)
                } else {
                    to.send(c).expect("sent");
                    res.recv().expect("panic")
                };
                log.add(c, &o);
            }
            drop(to);
            other.join().expect("panic");
        }
        // Every call in a new thread.
        "threads" => {
            for &c in &nums {
                let o = std::thread::spawn(move || call(c as usize)).join().expect("panic");
                log.add(c as usize, &o);
            }
        }
        // A call, many times, and then all the others.
        "repeat" => {
            for _ in 0..nums[1] {
                let o = call(c(0));
                if log.seen.is_empty() || log.made % 64 != 63 {
                    let h = hash_of(&o);
                    if log.seen.contains_key(&(c(0), h)) {
                        log.made += 1;
                        continue;
                    }
                }
                log.add(c(0), &o);
            }
            for o in 0..calls() {
                log.add(o, &call(o));
            }
        }
        // All sequences of three calls, one after another.
        "triples" => {
            let k = nums[0];
            for i in 0..k * k * k {
                for c in [i % k, i / k % k, i / k / k] {
                    log.add(c as usize, &call(c as usize));
                }
            }
        }
        // A call of the wide domain before and after each of the others.
        "row" => {
            let n = wide().len();
            for y in 0..n {
                for c in [c(0), WIDE + (c(0) - WIDE + y) % n] {
                    log.add(c, &call(c));
                }
            }
        }
        // One schedule of two calls.
        "schedule" => {
            let cs = [c(0), c(1)];
            let o = interleave(cs, c(2), &nums[3..]);
            log.runs += 1;
            log.add(cs[0], &o[0]);
            log.add(cs[1], &o[1]);
        }
        // All schedules of two calls up to a number of preemptions.
        "schedules" => {
            let cs = [c(0), c(1)];
            let n = steps(cs[0]) + steps(cs[1]);
            for first in 0..2 {
                choices(n, nums[2] as u32, 1, &mut Vec::new(), &mut |s| {
                    let o = interleave(cs, first, s);
                    log.runs += 1;
                    log.add(cs[0], &o[0]);
                    log.add(cs[1], &o[1]);
                });
            }
        }
        _ => panic!("unknown history"),
    }
    log.print();
}

// The exploration.

fn process(args: &[String]) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = Command::new(exe)
        .arg("history")
        .args(args)
        .stdin(Stdio::null())
        .output()
        .expect("process");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if !out.status.success() {
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        return Err(format!(
            "the process ends with {}: {} {}",
            out.status,
            text.lines().last().unwrap_or(""),
            err.lines().take(3).collect::<Vec<_>>().join(" ")
        ));
    }
    Ok(text)
}

/// What a process tells: the results of its calls, the number of calls made,
/// and the number of schedules.
struct Told {
    calls: Vec<(usize, u64, u64, String)>,
    made: u64,
    runs: u64,
}

fn told(text: &str) -> Result<Told, String> {
    let mut t = Told {
        calls: Vec::new(),
        made: 0,
        runs: 0,
    };
    let mut end = false;
    for l in text.lines() {
        let f: Vec<&str> = l.splitn(5, ' ').collect();
        match f[0] {
            "CALL" => t.calls.push((
                f[1].parse().map_err(|_| "bad output")?,
                u64::from_str_radix(f[2], 16).map_err(|_| "bad output")?,
                f[3].parse().map_err(|_| "bad output")?,
                f.get(4).unwrap_or(&"").to_string(),
            )),
            "END" => {
                end = true;
                t.made = f[1].parse().map_err(|_| "bad output")?;
                t.runs = f[2].parse().map_err(|_| "bad output")?;
            }
            _ => {}
        }
    }
    ensure!(end, "the process ends early");
    Ok(t)
}

fn strs(kind: &str, nums: &[u64]) -> Vec<String> {
    let mut v = vec![kind.to_string()];
    v.extend(nums.iter().map(u64::to_string));
    v
}

pub fn c16(run: &mut Run) {
    let k = calls() as u64;
    // The calls alone.
    let alone: Mutex<BTreeMap<usize, (u64, String, u64)>> = Mutex::new(BTreeMap::new());
    let first = |c: usize| -> Result<(u64, String, u64), String> {
        if let Some(r) = alone.lock().unwrap().get(&c) {
            return Ok(r.clone());
        }
        let t = told(&process(&strs("calls", &[c as u64, 0]))?)?;
        ensure!(t.calls.len() == 1 && t.made == 1, "unexpected output");
        let n = if c >= WIDE {
            0
        } else {
            process(&strs("steps", &[c as u64]))?
                .trim()
                .strip_prefix("STEPS ")
                .and_then(|n| n.parse().ok())
                .ok_or("unexpected output")?
        };
        let r = (t.calls[0].1, t.calls[0].3.clone(), n);
        alone.lock().unwrap().insert(c, r.clone());
        Ok(r)
    };
    let judge = |args: &Vec<String>, w: &mut W| -> Verdict {
        let t = told(&process(args)?)?;
        w.steps(t.made);
        w.outcome("process");
        for (c, h, n, what) in &t.calls {
            let (base, text, _) = first(*c)?;
            w.state(&(c, h));
            ensure!(
                *h == base,
                "the call '{}', made as number {n}, results in {what} instead of {text}",
                name(*c)
            );
        }
        w.state(args);
        for _ in 0..t.runs {
            w.outcome("schedule");
        }
        Ok(())
    };
    run.family("alone", k, |i| Some(strs("calls", &[i, 0])), judge);
    run.family("alone-in-a-thread", k, |i| Some(strs("calls", &[i, 1])), judge);
    // All pairs of the wide domain.
    let n = wide().len() as u64;
    let w = WIDE as u64;
    run.family("wide-alone", n, |i| Some(strs("calls", &[w + i, 0])), judge);
    run.family("wide-pairs", n, |i| Some(strs("row", &[w + i])), judge);
    if run.thorough {
        run.family(
            "wide-pairs-in-fresh-processes",
            n * n,
            |i| Some(strs("calls", &[w + i % n, 0, w + i / n, 0])),
            judge,
        );
    }
    // All histories.
    let history = |i: u64, len: usize, threads: &[u64], calls: u64| {
        let t = threads[(i % threads.len() as u64) as usize];
        let mut i = i / threads.len() as u64;
        let mut v = Vec::new();
        for j in 0..len {
            v.push(i % calls);
            v.push(t >> j & 1);
            i /= calls;
        }
        strs("calls", &v)
    };
    run.family("histories-of-2", k * k * 2, |i| Some(history(i, 2, &[0, 2], k)), judge);
    let t3: &[u64] = run.tier(&[0], &[0, 2, 4, 6]);
    run.family(
        "histories-of-3",
        k * k * k * t3.len() as u64,
        |i| Some(history(i, 3, t3, k)),
        judge,
    );
    if run.thorough {
        run.family("histories-of-4", 10 * 10 * 10 * 10 * 2, |i| Some(history(i, 4, &[0, 10], 10)), judge);
    }
    run.family(
        "every-call-in-a-new-thread",
        k * k,
        |i| Some(strs("threads", &[i % k, i / k, i % k, i / k, i % k])),
        judge,
    );
    // All sequences of three calls in one process, excluding the slow calls.
    run.family("triples", 1, |_| Some(strs("triples", &[17])), judge);
    // Many repetitions.
    let many = run.tier(70_000, 300_000);
    run.family(
        "repetitions",
        k,
        |i| Some(strs("repeat", &[i, if i < 17 { many } else { 700 }])),
        judge,
    );
    // Interleaved calls, each schedule in a process of its own.
    const SMALL: u64 = 17;
    let sched = |i: u64, max: u32| -> Option<Vec<String>> {
        // Index: pair, first thread, switches.
        let (pair, i) = (i / 8192, i % 8192);
        let (a, b) = (pair % SMALL, pair / SMALL);
        let (first_thread, i) = (i % 2, i / 2);
        let n = first(a as usize).ok()?.2 + first(b as usize).ok()?.2;
        let mut v = vec![a, b, first_thread];
        if i <= n {
            if i > 0 {
                v.push(i);
            }
        } else if max >= 2 {
            let mut i = i - n - 1;
            let mut x = 1;
            loop {
                if x >= n {
                    return None;
                }
                if i < n - x {
                    v.extend([x, x + 1 + i]);
                    break;
                }
                i -= n - x;
                x += 1;
            }
        } else {
            return None;
        }
        Some(strs("schedule", &v))
    };
    let max = run.tier(1, 2);
    run.family(
        "schedules-of-fresh-processes",
        SMALL * SMALL * 8192,
        |i| sched(i, max),
        judge,
    );
    // All schedules in one process.
    let preemptions = run.tier(2, 3);
    run.family(
        "schedules",
        SMALL * SMALL,
        |i| {
            let n = first((i % SMALL) as usize).ok()?.2 + first((i / SMALL) as usize).ok()?.2;
            let p = if n > 40 { 2 } else { preemptions };
            Some(strs("schedules", &[i % SMALL, i / SMALL, p]))
        },
        judge,
    );
}
