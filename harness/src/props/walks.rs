//! Walks over parse trees, dumps to writers that fail, and sets of flags.

use super::class::{some_sets, S};
use super::expr::{lists, singles, strs};
use crate::dom::{self, Job};
use crate::engine::{Run, Verdict, W};
use crate::ensure;
use crate::refmodel;
use rescan::verif::{self, TreeEvent};
use rescan::Flags;
use std::fmt;

/// What a walk over the tree visits.
fn visits(tree: &[TreeEvent]) -> Vec<(char, char)> {
    let mut v: Vec<(char, char)> = Vec::new();
    let mut open: Vec<(char, bool)> = Vec::new();
    for e in tree {
        let enter = match e {
            TreeEvent::EnterSequence(_) => Some('s'),
            TreeEvent::EnterAlternation => Some('a'),
            TreeEvent::Class(_) => Some('c'),
            TreeEvent::LeaveSequence | TreeEvent::LeaveAlternation => None,
        };
        let Some(what) = enter else {
            v.push(('>', open.pop().expect("open").0));
            continue;
        };
        if let Some((parent, more)) = open.last_mut() {
            if *more {
                v.push(('-', *parent));
            }
            *more = true;
        }
        v.push(('<', what));
        if what == 'c' {
            v.push(('-', 'c'));
            v.push(('>', 'c'));
        } else {
            open.push((what, false));
        }
    }
    v
}

pub fn c34(run: &mut Run) {
    let longest = run.tier(600, 3000);
    singles(run, false, &move |job: &Job, w: &mut W| {
        let i = &job.items[0];
        let Ok(parsed) = refmodel::reference(&i.e, i.f, refmodel::MAX_LENGTH) else {
            return Ok(());
        };
        let Ok(tree) = verif::Tree::new(&i.e, dom::flags(i.f)) else {
            return Ok(());
        };
        let want = visits(&refmodel::tree_of(&i.e, &parsed));
        let entered: Vec<usize> = (0..want.len()).filter(|&k| want[k].0 == '<').collect();
        w.state(&want);
        // Refused nowhere, and at each component.
        let all = if i.e.len() <= longest { 0 } else { entered.len().saturating_sub(20) };
        let few = if all > 0 { 20 } else { 0 };
        for refused in (0..few).chain(all..=entered.len()) {
            let (got, r) = tree.walk(refused);
            w.steps(got.len() as u64);
            let (prefix, result) = match entered.get(refused) {
                Some(&k) => (&want[..=k], Err(refused)),
                None => (&want[..], Ok(())),
            };
            ensure!(r == result, "refused at {refused}, the walk ends with {r:?}");
            ensure!(got == prefix, "refused at {refused}, the walk visits {got:?} instead of {prefix:?}");
            w.outcome(if r.is_ok() { "complete" } else { "refused" });
        }
        Ok(())
    });
}

/// A writer that fails.
struct Failing {
    text: String,
    writes: usize,
    /// The number of the write that fails.
    fails: usize,
    /// The number of bytes that there is room for.
    room: usize,
    failed: bool,
    after: bool,
}

impl Failing {
    fn new(fails: usize, room: usize) -> Self {
        Self {
            text: String::new(),
            writes: 0,
            fails,
            room,
            failed: false,
            after: false,
        }
    }
}

impl fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.after |= self.failed;
        let n = self.writes;
        self.writes += 1;
        if n == self.fails || self.text.len() + s.len() > self.room {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Checks what is written for each write that fails, and each size of a writer.
fn failing(what: &str, w: &mut W, write: &dyn Fn(&mut dyn fmt::Write) -> fmt::Result) -> Verdict {
    let mut to = Failing::new(usize::MAX, usize::MAX);
    ensure!(write(&mut to).is_ok(), "{what} fails without reason");
    let (text, n) = (to.text, to.writes);
    let judge = |mut to: Failing, w: &mut W| -> Verdict {
        let (fails, room) = (to.fails, to.room);
        let r = write(&mut to);
        w.steps(1);
        w.outcome(if r.is_ok() { "written" } else { "failed" });
        let how = || {
            if fails < usize::MAX {
                format!("when write {fails} of {n} fails")
            } else {
                format!("with room for {room} of {} bytes", text.len())
            }
        };
        ensure!(
            r.is_err() == to.failed,
            "{}, {what} returns {r:?}, and {:?} has been written",
            how(),
            to.text
        );
        ensure!(!to.after, "{}, {what} writes on", how());
        ensure!(
            if to.failed { text.starts_with(&to.text) } else { text == to.text },
            "{}, {what} writes {:?} instead of the beginning of {text:?}",
            how(),
            to.text
        );
        Ok(())
    };
    for fails in 0..n {
        judge(Failing::new(fails, usize::MAX), w)?;
    }
    if text.len() <= 100 {
        for room in 0..=text.len() {
            judge(Failing::new(usize::MAX, room), w)?;
        }
    }
    Ok(())
}

pub fn c35(run: &mut Run) {
    let t = run.thorough;
    some_sets(run, t, &|s: &S, _, w| {
        let c = s.class();
        failing("the description", w, &|to| c.describe_to(false, to))?;
        failing("the description for a label", w, &|to| c.describe_to(true, to))?;
        failing("the list of members", w, &|to| write!(to, "{c}"))
    });
    let message = |job: &Job, w: &mut W| -> Verdict {
        if let Err(e) = dom::compile(job) {
            w.state(&e.to_string());
            failing("the message", w, &|to| write!(to, "{e}"))?;
        }
        Ok(())
    };
    let judge = |job: &Job, w: &mut W| -> Verdict {
        let i = &job.items[0];
        if let Ok(tree) = verif::Tree::new(&i.e, dom::flags(i.f)) {
            w.state(&i.e);
            failing("the dump", w, &|to| tree.dump_to(to))?;
        }
        message(job, w)
    };
    for s in [
        dom::all_strings("dumped-words-S1", dom::S1, if t { 9 } else { 7 }),
        dom::all_strings("dumped-words-S2", dom::S2, if t { 5 } else { 4 }),
        dom::all_strings("dumped-words-S3", dom::S3, if t { 4 } else { 3 }),
        dom::chars_in_contexts("dumped-ascii", 0, 128, dom::CONTEXTS.len()),
    ] {
        strs(run, &s, &[0, 0x0001], false, &judge);
    }
    strs(run, &dom::verbs(), &[0], false, &message);
    strs(run, &dom::unicode(t), &[0], false, &message);
    lists(run, &message);
}

const NAMED: [(&str, Flags, u16); 11] = [
    ("CASELESS", Flags::CASELESS, 1),
    ("DOTALL", Flags::DOTALL, 2),
    ("MULTILINE", Flags::MULTILINE, 4),
    ("SINGLEMATCH", Flags::SINGLEMATCH, 8),
    ("ALLOWEMPTY", Flags::ALLOWEMPTY, 16),
    ("UTF8", Flags::UTF8, 32),
    ("UCP", Flags::UCP, 64),
    ("PREFILTER", Flags::PREFILTER, 128),
    ("SOM_LEFTMOST", Flags::SOM_LEFTMOST, 256),
    ("COMBINATION", Flags::COMBINATION, 512),
    ("QUIET", Flags::QUIET, 1024),
];

/// The set with the given flags.
fn set(x: u16) -> Flags {
    NAMED
        .iter()
        .filter(|f| x & f.2 != 0)
        .fold(Flags::empty(), |a, f| a | f.1)
}

pub fn c36(run: &mut Run) {
    run.family("values", 1 << 16, |i| Some(i as u16), |&x, w| {
        w.state(&x);
        w.steps(4);
        let known = x & 0x07ff;
        w.outcome(if known == x { "known" } else { "unknown" });
        let want = if known == x { Some(set(x)) } else { None };
        let got = Flags::from_bits(x);
        ensure!(got == want, "{x:#x} stands for {got:?} instead of {want:?}");
        let got = Flags::from_bits_truncate(x);
        ensure!(got == set(known), "the known ones of {x:#x} are {got:?}");
        ensure!(set(known).bits() == known, "the value of {:?} is {:#x}", set(known), set(known).bits());
        ensure!(Flags::all().bits() == 0x07ff, "all flags are {:?}", Flags::all());
        Ok(())
    });
    run.family("names", 2048, |i| Some(i as u16), |&x, w| {
        w.state(&x);
        w.steps(22);
        let s = set(x);
        let shown = format!("{s:?}");
        for (name, f, v) in NAMED {
            ensure!(s.contains(f) == (x & v != 0), "{s:?} and {name}");
            ensure!(f.bits() == v, "the value of {name} is {:#x}", f.bits());
            let listed = shown.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).any(|p| p == name);
            ensure!(listed == (x & v != 0), "the set {x:#x} is shown as {shown:?}");
        }
        ensure!(s.is_empty() == (x == 0) && s.is_all() == (x == 0x07ff), "{s:?} is empty or full");
        Ok(())
    });
    run.family(
        "pairs",
        1 << 22,
        |i| Some(((i & 0x7ff) as u16, (i >> 11) as u16)),
        |&(x, y), w| {
            w.steps(8);
            let (a, b) = (Flags::from_bits_truncate(x), Flags::from_bits_truncate(y));
            ensure!((a | b).bits() == x | y, "{a:?} or {b:?} is {:?}", a | b);
            ensure!((a & b).bits() == x & y, "{a:?} and {b:?} is {:?}", a & b);
            ensure!((a - b).bits() == x & !y, "{a:?} without {b:?} is {:?}", a - b);
            ensure!((a ^ b).bits() == x ^ y, "{a:?} or else {b:?} is {:?}", a ^ b);
            ensure!((!a).bits() == !x & 0x7ff, "not {a:?} is {:?}", !a);
            ensure!(a.contains(b) == (x & y == y), "{a:?} and {b:?}: contains");
            ensure!(a.intersects(b) == (x & y != 0), "{a:?} and {b:?}: intersects");
            ensure!((a == b) == (x == y), "{a:?} and {b:?}: equal");
            Ok(())
        },
    );
}
