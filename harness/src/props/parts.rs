//! Properties of the building blocks.

use super::expr::{lists, look};
use crate::dom::{self, err_obs, item, Job};
use crate::engine::{Run, Verdict, W};
use crate::ensure;
use crate::refmodel::SINGLEMATCH;
use rescan::verif::{
    self, AddLiteral, DepthValue, Limits, Lit, Literal, NgLiteral, NgObs, ReportObs, ReportOp, ReportResult, Resources,
    SmallWriteGraph, SmallWriteObs, TrieObs,
};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn cased(s: &str) -> Lit {
    s.bytes().map(|c| (c, false)).collect()
}

fn caseless(s: &str) -> Lit {
    s.bytes()
        .map(|c| (c.to_ascii_uppercase(), c.is_ascii_alphabetic()))
        .collect()
}

fn is_mixed(l: &Lit) -> bool {
    let letter = |nc: bool| l.iter().any(|&(c, n)| c.is_ascii_alphabetic() && n == nc);
    letter(true) && letter(false)
}

// C11

/// The reports of each prefix that a tree spells.
fn spelled(t: &TrieObs) -> Result<BTreeMap<Vec<u8>, Vec<u32>>, String> {
    let n = t.vertices.len();
    let mut parent = vec![usize::MAX; n];
    for &(a, b) in &t.edges {
        ensure!(a < n && b < n, "edge to an unknown vertex");
        ensure!(parent[b] == usize::MAX, "vertex {b} has two parents");
        ensure!(b != t.root, "the root has a parent");
        parent[b] = a;
    }
    let mut words: Vec<Option<Vec<u8>>> = vec![None; n];
    words[t.root] = Some(Vec::new());
    for v in 0..n {
        let mut path = vec![];
        let mut u = v;
        while words[u].is_none() {
            path.push(u);
            ensure!(parent[u] != usize::MAX, "vertex {u} cannot be reached");
            ensure!(path.len() <= n, "the tree has a cycle");
            u = parent[u];
        }
        while let Some(x) = path.pop() {
            let mut w = words[u].clone().expect("known");
            w.push(t.vertices[x].0);
            words[x] = Some(w);
            u = x;
        }
    }
    let mut res = BTreeMap::new();
    for (v, w) in words.into_iter().enumerate() {
        let w = w.expect("known");
        if let Some(_old) = res.insert(w.clone(), t.vertices[v].1.clone()) {
            return Err(format!("two vertices for the prefix {w:?}"));
        }
    }
    Ok(res)
}

/// What the trees should hold.
fn expected_tries(
    num_patterns: usize,
    l: &Limits,
    ops: &[AddLiteral],
) -> (bool, [BTreeMap<Vec<u8>, BTreeSet<u32>>; 2]) {
    let mut poisoned = !l.allow_small_write || num_patterns > l.small_write_max_patterns;
    let mut tries = [BTreeMap::new(), BTreeMap::new()];
    for t in &mut tries {
        t.insert(Vec::new(), BTreeSet::new());
    }
    let mut count = 0;
    for op in ops {
        if op.lit.len() > l.small_write_largest_buffer {
            continue;
        }
        count += 1;
        if count > l.small_write_max_literals {
            poisoned = true;
        }
        let t = &mut tries[usize::from(op.lit.iter().any(|c| c.1))];
        let word: Vec<u8> = op.lit.iter().map(|c| c.0).collect();
        for k in (1..=word.len()).rev() {
            if t.contains_key(&word[..k]) {
                break;
            }
            t.insert(word[..k].to_vec(), BTreeSet::new());
        }
        t.get_mut(&word).expect("inserted").insert(op.report);
        if t.len() > 8000 {
            poisoned = true;
        }
    }
    (poisoned, tries)
}

fn tries_judge(num_patterns: usize, l: &Limits, ops: &[AddLiteral], obs: &SmallWriteObs) -> Verdict {
    let (poisoned, tries) = expected_tries(num_patterns, l, ops);
    ensure!(
        obs.poisoned == poisoned,
        "given up: {} instead of {poisoned}",
        obs.poisoned
    );
    if poisoned {
        return Ok(());
    }
    for (what, obs, exp) in [("case-sensitive", &obs.cased, &tries[0]), ("case-insensitive", &obs.caseless, &tries[1])] {
        ensure!(obs.empty == (exp.len() == 1), "the {what} tree claims to be empty: {}", obs.empty);
        let all: BTreeSet<u32> = exp.values().flatten().copied().collect();
        ensure!(
            obs.all_reports.iter().eq(&all),
            "the {what} tree claims to have the reports {:?} instead of {all:?}",
            obs.all_reports
        );
        let got = spelled(obs).map_err(|e| format!("{what} tree: {e}"))?;
        ensure!(
            got.len() == exp.len(),
            "the {what} tree has {} vertices instead of {}",
            got.len(),
            exp.len()
        );
        for ((gw, gr), (ew, er)) in got.iter().zip(exp) {
            ensure!(gw == ew, "the {what} tree spells {gw:?} instead of {ew:?}");
            ensure!(
                gr.iter().copied().collect::<BTreeSet<_>>() == *er && gr.len() == er.len(),
                "{gw:?} has the reports {gr:?} instead of {er:?} in the {what} tree"
            );
        }
    }
    Ok(())
}

/// The settings by default, as far as they matter here; they are judged by what
/// the property says, not by what the code says.
fn default_settings() -> Limits {
    Limits {
        allow_small_write: true,
        small_write_largest_buffer: 70,
        small_write_max_literals: 10_000,
        small_write_max_patterns: 10_000,
        ..Limits::default()
    }
}

fn add_all(num_patterns: usize, l: &Limits, ops: &[AddLiteral], w: &mut W) -> Verdict {
    let obs = verif::small_write(num_patterns, l, ops);
    w.steps(ops.len() as u64);
    w.state(&obs);
    w.outcome(if obs.poisoned { "given up" } else { "kept" });
    if *l == Limits::default() {
        tries_judge(num_patterns, &default_settings(), ops, &obs)
    } else {
        tries_judge(num_patterns, l, ops, &obs)
    }
}

fn add(lit: Lit, report: u32) -> AddLiteral {
    AddLiteral { lit, report }
}

pub fn c11(run: &mut Run) {
    // Sequences of additions.
    let lits: Vec<Lit> = vec![
        cased("a"),
        cased("ab"),
        cased("b"),
        caseless("ab"),
        caseless("a5"),
        cased("AB"),
        cased("5"),
        cased("aa"),
    ];
    let k = lits.len() as u64 * 2;
    let op = |s: u64| add(lits[(s / 2) as usize].clone(), [0, 7][(s % 2) as usize]);
    let n = dom::words(k, run.tier(4, 5));
    run.family(
        "sequences",
        n,
        |i| Some(dom::word(i, k).into_iter().map(op).collect::<Vec<_>>()),
        |ops, w| add_all(ops.len(), &Limits::default(), ops, w),
    );
    // The same with small settings.
    let n = dom::words(k, 3);
    let settings: Vec<Limits> = {
        let mut v = Vec::new();
        for allow in [true, false] {
            for buffer in [0, 1, 2] {
                for max_literals in [0, 1, 2, 3] {
                    for max_patterns in [0, 2, 3] {
                        v.push(Limits {
                            allow_small_write: allow,
                            small_write_largest_buffer: buffer,
                            small_write_max_literals: max_literals,
                            small_write_max_patterns: max_patterns,
                            ..Limits::default()
                        });
                    }
                }
            }
        }
        v
    };
    let m = settings.len() as u64;
    run.family(
        "sequences-small-settings",
        n * m,
        |i| {
            let ops: Vec<_> = dom::word(i / m, k).into_iter().map(op).collect();
            Some((settings[(i % m) as usize].clone(), ops))
        },
        |(l, ops), w| add_all(ops.len(), l, ops, w),
    );
    // Every two bytes, as two literals and as one.
    run.family(
        "bytes",
        256 * 256 * 3,
        |i| {
            let (a, b) = (i as u8, (i >> 8) as u8);
            let nc = |c: u8| (c.to_ascii_uppercase(), c.is_ascii_alphabetic());
            Some(match i >> 16 {
                0 => vec![add(vec![(a, false)], 1), add(vec![(b, false)], 2)],
                1 => vec![add(vec![(a, false), (b, false)], 3), add(vec![(a, false)], 4)],
                _ => vec![add(vec![nc(a), nc(b)], 5), add(vec![nc(b)], 6)],
            })
        },
        |ops, w| add_all(2, &Limits::default(), ops, w),
    );
    // All the words of two letters are added in some rotation: many children.
    run.family(
        "fan-out",
        256 * 2,
        |i| {
            let mut v: Vec<_> = (0..=255_u8)
                .map(|c| add(vec![(b'x', false), (c.wrapping_add(i as u8), false)], u32::from(c) / 2))
                .collect();
            if i >= 256 {
                v.extend((0..=i as u8).map(|c| add(vec![(b'x', false), (c, false)], 1000)));
            }
            Some(v)
        },
        |ops, w| add_all(256, &Limits::default(), ops, w),
    );
    // Two literals of every length around the limit.
    let max = run.tier(75_u64, 140);
    run.family(
        "lengths",
        max * max * 4,
        |i| {
            let (a, b, v) = (i % max, i / max % max, i / max / max);
            let s = |n: u64, c: &str| c.repeat(n as usize);
            let (x, y) = (s(a, "q"), if v < 2 { s(b, "q") } else { s(b, "r") });
            let f: fn(&str) -> Lit = if v % 2 == 0 { cased } else { caseless };
            if x.is_empty() || y.is_empty() {
                return None;
            }
            Some(vec![add(f(&x), 1), add(f(&y), 2)])
        },
        |ops, w| add_all(2, &Limits::default(), ops, w),
    );
    run.family(
        "buffer-settings",
        140 * 140,
        |i| {
            let l = Limits {
                small_write_largest_buffer: (i / 140) as usize,
                ..Limits::default()
            };
            Some((l, vec![add(cased(&"k".repeat((i % 140) as usize + 1)), 9), add(caseless("K"), 9)]))
        },
        |(l, ops), w| add_all(2, l, ops, w),
    );
    // Long literals that fill a tree to exactly the given number of vertices,
    // including the root; each begins with another character.
    let fill = |nocase: bool, vertices: usize, report: u32| {
        let mut v = Vec::new();
        let mut left = vertices - 1;
        while left > 0 {
            let n = match left {
                71 => 69,
                n => n.min(70),
            };
            let first = u8::try_from(0x80 + v.len()).expect("few literals");
            let mut lit: Lit = vec![(if nocase { b'L' } else { b'l' }, nocase); n];
            lit[0] = (first, false);
            v.push(add(lit, report + (v.len() % 3) as u32));
            left -= n;
        }
        v
    };
    run.family(
        "many-vertices",
        64 * 7,
        |i| {
            let kind = i / 64;
            let nocase = kind % 2 == 1;
            let mut ops = fill(nocase, 7970 + (i % 64) as usize, 1);
            match kind {
                // One more literal, in the other tree or in the same.
                2 => ops.push(add(caseless("qqq"), 3)),
                3 => ops.push(add(caseless("qq"), 3)),
                // Everything once more: nothing new.
                4 | 5 => {
                    let again = ops.clone();
                    ops.extend(again);
                }
                // The other tree is about as large.
                6 => ops.extend(fill(true, 7999, 4)),
                _ => {}
            }
            Some(ops)
        },
        |ops, w| add_all(ops.len(), &Limits::default(), ops, w),
    );
    // Many literals.
    let counts: &[usize] = &[1, 255, 256, 257, 1000, 1999, 7998, 9999, 10_000, 10_001, 10_002];
    let k = counts.len() as u64;
    run.family(
        "many-literals",
        k * 4,
        |i| {
            let n = counts[(i % k) as usize];
            let v = i / k;
            Some((
                if v == 3 { 10_000 } else { n.min(10_000) },
                (0..n)
                    .map(|j| match v {
                        0 => add(cased("abc"), j as u32),
                        1 => add(if j % 2 == 0 { cased("x") } else { caseless("x") }, 3),
                        2 => add(cased(&dom::numbered(j % 7000)), j as u32),
                        _ => add(cased(&"z".repeat(if j % 2 == 0 { 71 } else { 4 })), j as u32 / 5),
                    })
                    .collect::<Vec<_>>(),
            ))
        },
        |(n, ops), w| add_all(*n, &Limits::default(), ops, w),
    );
    run.family(
        "many-patterns",
        40,
        |i| Some(9_980 + i as usize),
        |&n, w| add_all(n, &Limits::default(), &[add(cased("ab"), 1)], w),
    );
    // As part of compilations.
    let judge = |job: &Job, w: &mut W| {
        let obs = look(job, w);
        let Some(ng) = &obs.trace.ng else { return Ok(()) };
        let mut ops = Vec::new();
        for e in &obs.trace.expressions {
            for (lit, reports) in &e.literals {
                for &r in reports {
                    ops.push(add(lit.clone(), r));
                }
            }
        }
        tries_judge(job.items.len(), &default_settings(), &ops, &ng.small_write)
    };
    lists(run, &judge);
    let s = dom::all_strings("", dom::S2, 4);
    run.family(
        "compiled-words",
        s.n * 2,
        |i| Some(dom::single(&(s.get)(i / 2)?, (i % 2) as u16)),
        judge,
    );
    let words = ["a", "A", "ab", "aB", "(b)", "a|b", "5", "a5"];
    let elements: Vec<_> = words
        .iter()
        .flat_map(|e| [item(e, 0, 1), item(e, 1, 2)])
        .collect();
    let n = dom::words(elements.len() as u64, run.tier(4, 5));
    run.family("compiled-lists", n, |i| Some(dom::list(i, &elements)), judge);
}

// C13

fn report_obs(op: &ReportOp) -> Option<ReportObs> {
    match *op {
        ReportOp::Callback(id, adj, ekey, quiet) => Some(ReportObs {
            som_relative: false,
            on_match: id,
            offset_adjust: adj,
            ekey,
            quiet,
            som_distance: 0,
        }),
        ReportOp::SomCallback(id, adj, d) => Some(ReportObs {
            som_relative: true,
            on_match: id,
            offset_adjust: adj,
            ekey: None,
            quiet: false,
            som_distance: d,
        }),
        _ => None,
    }
}

fn reports_judge(limit: usize, ops: &[ReportOp], each: bool, w: &mut W) -> Verdict {
    let (res, end) = verif::report_manager(limit, ops, each);
    w.steps(ops.len() as u64);
    w.state(&end);
    let mut ids: HashMap<ReportObs, u32> = HashMap::new();
    let mut handed: Vec<ReportObs> = Vec::new();
    for (i, (op, (r, lookups))) in ops.iter().zip(&res).enumerate() {
        if let (Some(report), ReportResult::Id(r)) = (report_obs(op), r) {
            let next = ids.len() as u32;
            match (ids.get(&report), r) {
                (Some(&id), Ok(got)) => {
                    ensure!(*got == id, "request {i} ({op:?}) returned {got}, but an equal one {id}");
                    handed.push(report);
                }
                (None, Ok(got)) => {
                    ensure!(
                        (next as usize) < limit,
                        "request {i} ({op:?}) was granted beyond the limit of {limit}"
                    );
                    ensure!(*got == next, "request {i} ({op:?}) returned {got} instead of {next}");
                    ids.insert(report.clone(), next);
                    handed.push(report);
                    w.outcome("granted");
                }
                (known, Err(e)) => {
                    ensure!(
                        known.is_none() && next as usize >= limit,
                        "request {i} ({op:?}) was refused although {next} of {limit} reports exist"
                    );
                    ensure!(dom::is_resource(&err_obs(e)), "{e} is not a resource limit error");
                    w.outcome("refused");
                }
            }
        }
        if each || i + 1 == ops.len() {
            ensure!(
                *lookups == handed,
                "after operation {i} the numbers stand for {lookups:?} instead of {handed:?}"
            );
        }
    }
    ensure!(
        end.reports.len() == ids.len(),
        "there are {} reports instead of {}",
        end.reports.len(),
        ids.len()
    );
    Ok(())
}

const NEAR: &[ReportOp] = &[
    ReportOp::Callback(1, 0, None, false),
    ReportOp::Callback(2, 0, None, false),
    ReportOp::Callback(1, 1, None, false),
    ReportOp::Callback(1, 0, Some(0), false),
    ReportOp::Callback(1, 0, Some(1), false),
    ReportOp::Callback(1, 0, None, true),
    ReportOp::SomCallback(1, 0, 0),
    ReportOp::SomCallback(1, 0, 1),
    ReportOp::SomCallback(2, 1, 1),
    ReportOp::Register(1, true, 0),
    ReportOp::Register(1, false, 1),
    ReportOp::ExhaustibleKey(1),
];

pub fn c13(run: &mut Run) {
    let k = NEAR.len() as u64;
    let limits: &[usize] = &[0, 1, 2, 3, 1000];
    let m = limits.len() as u64;
    let n = dom::words(k, run.tier(5, 6));
    run.family(
        "sequences",
        n * m,
        |i| {
            let ops: Vec<ReportOp> = dom::word(i / m, k).into_iter().map(|s| NEAR[s as usize]).collect();
            Some((limits[(i % m) as usize], ops))
        },
        |(l, ops), w| reports_judge(*l, ops, true, w),
    );
    // Reports that differ in boundary values of one or two fields.
    let ids = [0, 1, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX];
    let adjs = [0, 1, -1, 127, -128, 255, 256, 65_536, i32::MAX, i32::MIN];
    let keys = [None, Some(0), Some(1), Some(256), Some(0x7fff_ffff), Some(u32::MAX)];
    let dists = [0, 1, 255, 256, 65_535, 65_536, 1 << 31, 1 << 32, (1 << 32) + 1, u64::MAX];
    let mut all = Vec::new();
    for (x, &id) in ids.iter().enumerate() {
        for (y, &adj) in adjs.iter().enumerate() {
            for &key in &keys {
                for quiet in [false, true] {
                    if run.thorough || x < 2 || y < 2 {
                        all.push(ReportOp::Callback(id, adj, key, quiet));
                    }
                }
            }
            for (z, &d) in dists.iter().enumerate() {
                if run.thorough || x < 2 || y < 2 || z < 2 {
                    all.push(ReportOp::SomCallback(id, adj, d));
                }
            }
        }
    }
    let k = all.len() as u64;
    run.family(
        "pairs",
        k * k,
        |i| Some([all[(i % k) as usize], all[(i / k) as usize], all[(i % k) as usize]]),
        |ops, w| reports_judge(10, ops, true, w),
    );
    run.family(
        "all-of-them",
        2,
        |i| {
            let mut v = all.clone();
            if i == 1 {
                v.reverse();
            }
            v.extend(all.iter().copied());
            Some(v)
        },
        |ops, w| reports_judge(usize::MAX, ops, false, w),
    );
    // Every small and many-bits variation of each field.
    run.family(
        "bits",
        32 * 2 + 64 + 32,
        |i| {
            Some(match i {
                0..=31 => [ReportOp::Callback(1 << i, 0, None, false), ReportOp::Callback(0, 0, None, false)],
                32..=63 => [
                    ReportOp::Callback(5, (1_u32 << (i - 32)) as i32, None, false),
                    ReportOp::Callback(5, 0, None, false),
                ],
                64..=127 => [ReportOp::SomCallback(5, 0, 1 << (i - 64)), ReportOp::SomCallback(5, 0, 0)],
                _ => [
                    ReportOp::Callback(5, 0, Some(1 << (i - 128)), false),
                    ReportOp::Callback(5, 0, Some(0), false),
                ],
            })
        },
        |ops, w| reports_judge(10, ops, true, w),
    );
    // Long runs.
    let sizes: &[usize] = run.tier(
        &[100, 255, 256, 257, 1000, 4096, 65_535, 65_536, 65_537, 70_000],
        &[100, 255, 256, 257, 1000, 4096, 65_535, 65_536, 65_537, 70_000, 1_000_000],
    );
    let k = sizes.len() as u64;
    run.family(
        "long",
        k * 4,
        |i| {
            let n = sizes[(i % k) as usize];
            let v = i / k;
            let mut ops: Vec<ReportOp> = (0..n as u32)
                .map(|j| match v {
                    0 => ReportOp::Callback(j, 0, None, false),
                    1 => ReportOp::Callback(j / 4, (j % 2) as i32, None, j / 2 % 2 == 1),
                    2 => ReportOp::SomCallback(7, 0, u64::from(j)),
                    _ => ReportOp::Callback(7, 0, Some(j), false),
                })
                .collect();
            ops.push(ReportOp::Register(0, true, 0));
            ops.extend_from_within(..n.min(300));
            ops.extend_from_within(n.saturating_sub(300)..n);
            Some((if v == 1 { n - 3 } else { usize::MAX }, ops))
        },
        |(l, ops), w| reports_judge(*l, ops, false, w),
    );
    let max = run.tier(90_u64, 300);
    run.family(
        "limits",
        max * max,
        |i| {
            let (n, l) = ((i % max) as u32, i / max);
            let mut ops: Vec<ReportOp> = (0..n).map(|j| ReportOp::Callback(j, 0, None, false)).collect();
            ops.extend((0..n).rev().map(|j| ReportOp::Callback(j, 0, None, false)));
            Some((l as usize, ops))
        },
        |(l, ops), w| reports_judge(*l, ops, false, w),
    );
    // As part of compilations: equal reports have equal numbers, densely.
    let judge = |job: &Job, w: &mut W| {
        let obs = look(job, w);
        let Some(ng) = &obs.trace.ng else { return Ok(()) };
        let mut known: Vec<(u32, bool, Option<i64>)> = Vec::new();
        let mut index: HashMap<(u32, bool, Option<i64>), u32> = HashMap::new();
        for (it, e) in job.items.iter().zip(&obs.trace.expressions) {
            for (_, reports) in &e.literals {
                let key = (
                    it.id,
                    it.f & crate::refmodel::QUIET != 0,
                    (it.f & SINGLEMATCH != 0).then_some(i64::from(it.id)),
                );
                let id = *index.entry(key).or_insert(known.len() as u32);
                if id as usize == known.len() {
                    known.push(key);
                }
                ensure!(*reports == [id], "{it:?} raises {reports:?} instead of [{id}]");
            }
        }
        ensure!(
            ng.reports.reports.len() == known.len(),
            "there are {} reports instead of {}",
            ng.reports.reports.len(),
            known.len()
        );
        for (r, k) in ng.reports.reports.iter().zip(&known) {
            ensure!(r.on_match == k.0 && r.quiet == k.1, "{r:?} should stand for {k:?}");
        }
        Ok(())
    };
    lists(run, &judge);
}

/// For C09: the limit on reports, on the report manager and on `Ng`.
pub fn report_limits(run: &mut Run) {
    let k = 8;
    let n = dom::words(k, run.tier(5, 6));
    run.family(
        "report-requests",
        n * 5,
        |i| {
            let ops: Vec<ReportOp> = dom::word(i / 5, k).into_iter().map(|s| NEAR[s as usize]).collect();
            Some(((i % 5) as usize, ops))
        },
        |(l, ops), w| {
            let (res, end) = verif::report_manager(*l, ops, false);
            w.steps(ops.len() as u64);
            w.state(&end);
            ensure!(end.reports.len() <= *l, "{} reports exist", end.reports.len());
            let mut known: Vec<ReportObs> = Vec::new();
            for (op, (r, _)) in ops.iter().zip(&res) {
                let (Some(o), ReportResult::Id(r)) = (report_obs(op), r) else { continue };
                let fits = known.contains(&o) || known.len() < *l;
                if fits && !known.contains(&o) {
                    known.push(o);
                }
                match r {
                    Ok(_) => ensure!(fits, "{op:?} exceeds the limit of {l}"),
                    Err(e) => {
                        ensure!(!fits, "{op:?} was refused within the limit of {l}: {e}");
                        ensure!(dom::is_resource(&err_obs(e)), "{e} is not a resource limit error");
                    }
                }
            }
            Ok(())
        },
    );
    ng_literals(run);
}

// C14

pub fn c14(run: &mut Run) {
    let judge = |ops: &Vec<ReportOp>, w: &mut W| -> Verdict {
        let (res, end) = verif::report_manager(1000, ops, false);
        w.steps(ops.len() as u64);
        w.state(&end);
        let mut keys: BTreeMap<i64, u32> = BTreeMap::new();
        for (i, (op, (r, _))) in ops.iter().zip(&res).enumerate() {
            if let (ReportOp::ExhaustibleKey(a), ReportResult::Key(got)) = (op, r) {
                let next = keys.len() as u32;
                let key = *keys.entry(i64::from(*a)).or_insert(next);
                ensure!(*got == key, "request {i} for {a} returned {got} instead of {key}");
            }
        }
        ensure!(end.ekeys == keys, "the keys are {:?} instead of {keys:?}", end.ekeys);
        Ok(())
    };
    let small: &[ReportOp] = &[
        ReportOp::ExhaustibleKey(0),
        ReportOp::ExhaustibleKey(1),
        ReportOp::ExhaustibleKey(2),
        ReportOp::ExhaustibleKey(u32::MAX),
        ReportOp::Callback(1, 0, Some(0), false),
        ReportOp::Register(1, true, 0),
        ReportOp::Register(2, false, 1),
    ];
    let k = small.len() as u64;
    let n = dom::words(k, run.tier(7, 8));
    run.family(
        "sequences",
        n,
        |i| Some(dom::word(i, k).into_iter().map(|s| small[s as usize]).collect::<Vec<_>>()),
        judge,
    );
    let ids: Vec<u32> = (0..32)
        .flat_map(|b| [(1_u32 << b).wrapping_sub(1), 1 << b, (1 << b) + 1])
        .chain([u32::MAX, u32::MAX - 1])
        .collect();
    let k = ids.len() as u64;
    run.family(
        "identifiers",
        k * k * k,
        |i| {
            let a = |i: u64| ReportOp::ExhaustibleKey(ids[i as usize]);
            Some(vec![a(i % k), a(i / k % k), a(i % k), a(i / k / k), a(i / k % k)])
        },
        judge,
    );
    let sizes: &[usize] = &[255, 256, 257, 1000, 65_535, 65_536, 65_537, 70_000];
    run.family(
        "long",
        sizes.len() as u64 * 3,
        |i| {
            let n = sizes[(i / 3) as usize] as u32;
            let key = |j: u32| match i % 3 {
                0 => j,
                1 => j.reverse_bits(),
                _ => u32::MAX - j,
            };
            let mut v: Vec<_> = (0..n).map(|j| ReportOp::ExhaustibleKey(key(j))).collect();
            v.extend((0..n).rev().map(|j| ReportOp::ExhaustibleKey(key(j))));
            Some(v)
        },
        judge,
    );
    // As part of compilations.
    let judge = |job: &Job, w: &mut W| {
        let obs = look(job, w);
        let Some(ng) = &obs.trace.ng else { return Ok(()) };
        let mut keys: BTreeMap<i64, u32> = BTreeMap::new();
        for (it, e) in job.items.iter().zip(&obs.trace.expressions) {
            for (_, reports) in &e.literals {
                let expected = (it.f & SINGLEMATCH != 0).then(|| {
                    let next = keys.len() as u32;
                    *keys.entry(i64::from(it.id)).or_insert(next)
                });
                for &r in reports {
                    let got = ng.reports.reports.get(r as usize).and_then(|r| r.ekey);
                    ensure!(got == expected, "{it:?} has the key {got:?} instead of {expected:?}");
                }
            }
        }
        ensure!(
            ng.reports.ekeys == keys,
            "the keys are {:?} instead of {keys:?}",
            ng.reports.ekeys
        );
        Ok(())
    };
    lists(run, &judge);
    let mut elements = Vec::new();
    for e in ["ab", "a|b", "(*UTF8)(c)", ""] {
        for (f, id) in [(0, 1), (SINGLEMATCH, 2), (SINGLEMATCH, 3), (SINGLEMATCH | 0x401, 4)] {
            elements.push(item(e, f, id));
        }
    }
    let n = dom::words(elements.len() as u64, run.tier(4, 5));
    run.family("compiled-lists", n, |i| Some(dom::list(i, &elements)), judge);
}

// Literals that are added to an `Ng` directly (C09, C10).

pub fn ng_literals(run: &mut Run) {
    let lits: Vec<Lit> = vec![
        cased("a"),
        cased("bc"),
        caseless("bc"),
        caseless("5"),
        vec![(b'A', true), (b'b', false)],
        vec![(b'a', false), (b'5', true)],
        vec![(b'a', false), (b'5', false), (b'B', true)],
    ];
    let mut alphabet = Vec::new();
    for l in &lits {
        for (id, highlander, som, quiet) in [(1, false, false, false), (2, true, false, true), (1, false, true, false)] {
            alphabet.push((l.clone(), id, highlander, som, quiet));
        }
    }
    let k = alphabet.len() as u64;
    let n = dom::words(k, run.tier(3, 4));
    let limits: Vec<Limits> = [(true, 100), (false, 100), (true, 0), (true, 1), (true, 2)]
        .iter()
        .map(|&(s, r)| Limits {
            shortcut_literals: s,
            report_count: r,
            ..Limits::default()
        })
        .collect();
    let m = limits.len() as u64;
    run.family(
        "added-literals",
        n * m,
        |i| {
            let ops: Vec<NgLiteral> = dom::word(i / m, k)
                .into_iter()
                .enumerate()
                .map(|(index, s)| {
                    let (lit, id, highlander, som, quiet) = alphabet[s as usize].clone();
                    NgLiteral { lit, index: index as u32, id, highlander, som, quiet }
                })
                .collect();
            Some((limits[(i % m) as usize].clone(), ops))
        },
        |(l, ops), w| {
            verif::start();
            let (res, ng): (_, NgObs) = verif::ng_literals(ops.len().max(1), l, ops);
            let trace = verif::take();
            w.steps(ops.len() as u64);
            w.state(&ng);
            let handed: Vec<(Lit, Vec<u32>)> = trace.expressions.into_iter().flat_map(|e| e.literals).collect();
            let mut handed = handed.into_iter();
            let mut reports: Vec<ReportObs> = Vec::new();
            for (op, r) in ops.iter().zip(&res) {
                if !l.shortcut_literals || is_mixed(&op.lit) {
                    ensure!(matches!(r, Ok(false)), "{op:?} was not refused: {r:?}");
                    continue;
                }
                let report = if op.som {
                    ReportObs {
                        som_relative: true,
                        on_match: op.id,
                        offset_adjust: 0,
                        ekey: None,
                        quiet: false,
                        som_distance: op.lit.len() as u64,
                    }
                } else {
                    ReportObs {
                        som_relative: false,
                        on_match: op.id,
                        offset_adjust: 0,
                        // Only one identifier ever gets a key.
                        ekey: op.highlander.then_some(0),
                        quiet: op.quiet,
                        som_distance: 0,
                    }
                };
                let id = reports.iter().position(|r| *r == report);
                if id.is_none() && reports.len() >= l.report_count {
                    let Err(e) = r else {
                        return Err(format!("{op:?} exceeds the limit on reports: {r:?}"));
                    };
                    ensure!(dom::is_resource(&err_obs(e)), "{e} is not a resource limit error");
                    continue;
                }
                let id = id.unwrap_or_else(|| {
                    reports.push(report);
                    reports.len() - 1
                });
                ensure!(matches!(r, Ok(true)), "{op:?} was not taken: {r:?}");
                let (lit, ids) = handed.next().ok_or_else(|| format!("{op:?} was not handed over"))?;
                let elems = Literal::new(&op.lit).elems();
                ensure!(lit == elems, "{op:?} was handed over as {lit:?}");
                ensure!(ids == [id as u32], "{op:?} raises {ids:?} instead of [{id}]");
            }
            let more = handed.next();
            ensure!(more.is_none(), "{more:?} was handed over");
            // A refused one may or may not have been recorded.
            let som = |taken: bool| ops.iter().zip(&res).any(|(op, r)| op.som && (matches!(r, Ok(true)) || !taken && r.is_err()));
            ensure!(
                ng.has_som == som(true) || ng.has_som == som(false),
                "start of match is recorded as needed: {}",
                ng.has_som
            );
            ensure!(
                ng.reports.reports == reports,
                "the reports are {:?} instead of {reports:?}",
                ng.reports.reports
            );
            Ok(())
        },
    );
}

// C22

fn elem_expected(&(c, nc): &(u8, bool)) -> (u8, bool) {
    (if nc { c.to_ascii_uppercase() } else { c }, nc)
}

fn literal_judge(pushed: &Lit, w: &mut W) -> Verdict {
    let mut lit = Literal::default();
    for (i, &(c, nc)) in pushed.iter().enumerate() {
        ensure!(lit.len() == i && lit.is_empty() == (i == 0), "length {} after {i}", lit.len());
        lit.push(c, nc);
    }
    w.steps(pushed.len() as u64);
    let expected: Lit = pushed.iter().map(elem_expected).collect();
    w.state(&expected);
    ensure!(lit.len() == expected.len(), "length {}", lit.len());
    ensure!(lit.is_empty() == expected.is_empty(), "empty: {}", lit.is_empty());
    ensure!(lit.elems() == expected, "holds {:?} instead of {expected:?}", lit.elems());
    ensure!(
        lit.elems_by_ref() == expected,
        "iterates over {:?} instead of {expected:?}",
        lit.elems_by_ref()
    );
    let any = expected.iter().any(|e| e.1);
    ensure!(lit.any_nocase() == any, "any case-insensitive: {}", lit.any_nocase());
    let mixed = is_mixed(&expected);
    ensure!(lit.mixed_sensitivity() == mixed, "mixed: {} instead of {mixed}", lit.mixed_sensitivity());
    Ok(())
}

fn compare_judge(a: &Lit, b: &Lit, w: &mut W) -> Verdict {
    let (x, y) = (Literal::new(a), Literal::new(b));
    let (ea, eb): (Lit, Lit) = (
        a.iter().map(elem_expected).collect(),
        b.iter().map(elem_expected).collect(),
    );
    let eq = ea == eb;
    ensure!(x.equal(&y) == eq && y.equal(&x) == eq, "equality is {} instead of {eq}", x.equal(&y));
    let c = x.compare(&y);
    w.steps(2);
    w.state(&(&ea, &eb, c as i8));
    ensure!(y.compare(&x) == c.reverse(), "{c:?} one way, {:?} the other", y.compare(&x));
    ensure!(x.partial_compare(&y) == Some(c), "{:?} {c:?}", x.partial_compare(&y));
    ensure!((c == Ordering::Equal) == eq, "compares as {c:?}, but equality is {eq}");
    let chars = |l: &Lit| l.iter().map(|e| e.0).collect::<Vec<_>>();
    let by_chars = chars(&ea).cmp(&chars(&eb));
    if by_chars != Ordering::Equal {
        ensure!(c == by_chars, "compares as {c:?}, but the characters as {by_chars:?}");
    }
    Ok(())
}

pub fn c22(run: &mut Run) {
    const ELEMS: &[(u8, bool)] = &[
        (b'a', false),
        (b'a', true),
        (b'A', false),
        (b'b', true),
        (b'Z', false),
        (b'z', true),
        (b'5', false),
        (b'5', true),
        (b'[', false),
        (b'`', true),
        (b'{', true),
        (0, false),
        (0xff, true),
        (0xe9, false),
    ];
    let k = ELEMS.len() as u64;
    let get = |i: u64| -> Lit { dom::word(i, k).into_iter().map(|s| ELEMS[s as usize]).collect() };
    let n = dom::words(k, run.tier(5, 6));
    run.family("words", n, |i| Some(get(i)), literal_judge);
    run.family(
        "bytes",
        256 * 256 * 4,
        |i| Some(vec![(i as u8, i >> 16 & 1 == 1), ((i >> 8) as u8, i >> 17 == 1)]),
        literal_judge,
    );
    let n = dom::words(k, 3);
    let pairs = run.tier(n.min(2955), n);
    run.family(
        "pairs",
        pairs * pairs,
        |i| Some((get(i % pairs), get(i / pairs))),
        |(a, b), w| compare_judge(a, b, w),
    );
    // All words of the same characters: every two and every three.
    let flags = |i: u64, len: u64| -> Lit {
        (0..len).map(|j| (b"AB5A"[j as usize], i >> j & 1 == 1)).collect()
    };
    run.family(
        "sensitivity-triples",
        16 * 16 * 16 * 5,
        |i| {
            let len = i / 4096;
            Some([flags(i % 16, len), flags(i / 16 % 16, len), flags(i / 256 % 16, len)])
        },
        |t, w| {
            let l: Vec<_> = t.iter().map(Literal::new_from).collect();
            w.steps(3);
            let (ab, bc, ac) = (l[0].compare(&l[1]), l[1].compare(&l[2]), l[0].compare(&l[2]));
            w.state(&(t, ab as i8, bc as i8));
            if ab == bc || bc == Ordering::Equal {
                ensure!(ac == ab, "{ab:?} and {bc:?}, but {ac:?}");
            } else if ab == Ordering::Equal {
                ensure!(ac == bc, "{ab:?} and {bc:?}, but {ac:?}");
            }
            compare_judge(&t[0], &t[1], w)
        },
    );
    let m = 226_u64;
    run.family(
        "triples",
        m * m * m,
        |i| {
            let get = |i: u64| -> Lit {
                // Over six elements, which collide a lot.
                dom::word(i, 6)
                    .into_iter()
                    .map(|s| ELEMS[[0, 1, 2, 6, 7, 11][s as usize]])
                    .collect()
            };
            Some([get(i % m), get(i / m % m), get(i / m / m)])
        },
        |t, w| {
            let l: Vec<_> = t.iter().map(Literal::new_from).collect();
            w.steps(3);
            let (ab, bc, ac) = (l[0].compare(&l[1]), l[1].compare(&l[2]), l[0].compare(&l[2]));
            w.state(&(ab as i8, bc as i8, ac as i8, t));
            if ab == bc || bc == Ordering::Equal {
                ensure!(ac == ab, "{ab:?} and {bc:?}, but {ac:?}");
            } else if ab == Ordering::Equal {
                ensure!(ac == bc, "{ab:?} and {bc:?}, but {ac:?}");
            }
            Ok(())
        },
    );
    // Long literals that differ in one place, or in length.
    let max = run.tier(140_u64, 300);
    run.family(
        "long",
        max * max * 6,
        |i| {
            let (n, p, v) = (i % max, i / max % max, i / max / max);
            if p >= n {
                return None;
            }
            let nc = v >= 3;
            let a: Lit = (0..n).map(|j| (b'a' + (j % 26) as u8, nc)).collect();
            let mut b = a.clone();
            match v % 3 {
                0 => b[p as usize].1 = !nc,
                1 => b[p as usize].0 = b'5',
                _ => b.truncate(p as usize),
            }
            Some((a, b))
        },
        |(a, b), w| {
            literal_judge(b, w)?;
            compare_judge(a, b, w)
        },
    );
    // ... and in two places, of which the characters matter first.
    let sizes: &[usize] = &[2, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 16_000];
    let n = sizes.len() as u64;
    run.family(
        "two-differences",
        n * 9 * 9 * 8,
        |i| {
            let len = sizes[(i % n) as usize];
            let at = |k: u64| {
                let p = [0, 1, 2, len / 2, 15, 63, len.wrapping_sub(3), len - 2, len - 1][k as usize];
                (p < len).then_some(p)
            };
            let (p, q, v) = (at(i / n % 9)?, at(i / n / 9 % 9)?, i / n / 81);
            let nc = v & 1 == 1;
            let a: Lit = (0..len).map(|j| (b'B' + (j % 20) as u8, nc)).collect();
            let (mut b, mut a) = (a.clone(), a);
            b[p].1 = !nc;
            if v & 2 == 0 {
                b[q].0 = b'A';
            } else {
                b[q].0 = b'Z';
            }
            if v & 4 != 0 {
                std::mem::swap(&mut a, &mut b);
            }
            Some((a, b))
        },
        |(a, b), w| compare_judge(a, b, w),
    );
    run.family(
        "very-long",
        64,
        |i| {
            let n = [255, 256, 257, 1000, 4095, 4096, 15_999, 16_000][(i % 8) as usize];
            let p = [0, 1, n / 2, n - 2, n - 1, n - 65, n - 64, 63][(i / 8) as usize];
            let a: Lit = (0..n).map(|j| (b'A' + (j % 26) as u8, true)).collect();
            let mut b = a.clone();
            b[p].1 = false;
            Some((a, b))
        },
        |(a, b), w| {
            literal_judge(a, w)?;
            literal_judge(b, w)?;
            compare_judge(a, b, w)?;
            compare_judge(a, a, w)
        },
    );
}

trait NewFrom {
    fn new_from(l: &Lit) -> Literal;
}

impl NewFrom for Literal {
    fn new_from(l: &Lit) -> Literal {
        Literal::new(l)
    }
}

// C23

macro_rules! rounding {
    ($t:ty, $v:expr) => {{
        let v: $t = $v;
        let wide = v as u128;
        let up = |n: u128| wide.div_ceil(n) * n;
        let down = |n: u128| wide / n * n;
        let max = <$t>::MAX as u128;
        if up(16) <= max {
            let r = verif::round_up_16(v) as u128;
            ensure!(r == up(16), "{} {v} up to 16: {r}", stringify!($t));
        }
        let r = verif::round_down_16(v) as u128;
        ensure!(r == down(16), "{} {v} down to 16: {r}", stringify!($t));
        if up(64) <= max {
            let r = verif::round_up_cache_line(v) as u128;
            ensure!(r == up(64), "{} {v} up to a cache line: {r}", stringify!($t));
        }
        for k in 0..8 {
            let n = 1_u8 << k;
            if up(n.into()) <= max {
                let r = verif::round_up_n(v, n) as u128;
                ensure!(r == up(n.into()), "{} {v} up to {n}: {r}", stringify!($t));
            }
            let r = verif::round_down_n(v, n) as u128;
            ensure!(r == down(n.into()), "{} {v} down to {n}: {r}", stringify!($t));
        }
    }};
}

pub fn c23(run: &mut Run) {
    run.family(
        "all-8-and-16-bit",
        65_536,
        |i| Some(i),
        |&v, w| {
            w.steps(40);
            w.state(&v);
            if v < 256 {
                rounding!(u8, v as u8);
            }
            rounding!(u16, v as u16);
            Ok(())
        },
    );
    let step = run.tier(64_u64, 1);
    let per = 1 << 12;
    // In the quick tier, every value near each multiple of 4096, and every
    // multiple of an odd number.
    run.family(
        if step == 1 { "all-32-bit" } else { "32-bit" },
        (1 << 32) / per,
        |i| Some(i * per),
        |&base, w| {
            w.state(&base);
            if step == 1 {
                w.steps(per * 20);
                for v in base..base + per {
                    rounding!(u32, v as u32);
                }
            } else {
                w.steps(5 * 20 + 62 * 20);
                for d in [0, 1, 2, per - 2, per - 1] {
                    rounding!(u32, (base + d) as u32);
                }
                let mut v = base + 17;
                while v < base + per {
                    rounding!(u32, v as u32);
                    v += 67;
                }
            }
            Ok(())
        },
    );
    // 64 bits: up to three bits set, plus or minus a little; and the highest.
    run.family(
        "64-bit",
        64 * 64 * 64 * 2,
        |i| {
            let v = 1_u64 << (i % 64) | 1 << (i / 64 % 64) | 1 << (i / 4096 % 64);
            Some(if i >= 1 << 18 { !v } else { v })
        },
        |&v, w| {
            w.state(&v);
            w.steps(9 * 60);
            for d in 0..9 {
                let v = v.wrapping_add(d).wrapping_sub(4);
                rounding!(u64, v);
                rounding!(usize, v as usize);
                rounding!(u32, v as u32);
                rounding!(u16, v as u16);
                rounding!(u8, v as u8);
            }
            Ok(())
        },
    );
    run.family(
        "ends",
        4096,
        |i| Some(i),
        |&d, w| {
            w.steps(80);
            w.state(&d);
            rounding!(u64, d);
            rounding!(u64, u64::MAX - d);
            rounding!(usize, usize::MAX - d as usize);
            rounding!(u32, u32::MAX - d as u32);
            Ok(())
        },
    );
}

// C24

const MAX_DEPTH: u64 = (1 << 31) - 2;

fn depth_judge(d: Option<DepthValue>, v: u64) -> Verdict {
    match d {
        None => ensure!(v > MAX_DEPTH, "creation from {v} failed"),
        Some(d) => {
            ensure!(v <= MAX_DEPTH, "creation from {v} succeeded: {d:?}");
            ensure!(d.value() == Some(v as u32), "{v} became {:?}", d.value());
            let inf = DepthValue::infinity();
            ensure!(d != inf && d < inf && inf > d, "{v} is not below infinity");
        }
    }
    Ok(())
}

pub fn c24(run: &mut Run) {
    const PER: u64 = 1 << 14;
    run.family(
        "all-32-bit",
        (1 << 32) / PER,
        |i| Some(i * PER),
        |&base, w| {
            w.steps(PER * 2);
            w.state(&base);
            for v in base..base + PER {
                depth_judge(DepthValue::from_u32(v as u32), v)?;
                depth_judge(DepthValue::from_usize(v as usize), v)?;
            }
            Ok(())
        },
    );
    let edge: Vec<u64> = {
        let mut v: Vec<u64> = (0..8).collect();
        for b in 3..64 {
            let p = 1_u64 << b;
            v.extend((0..7).map(|d| p - 3 + d));
            v.extend((0..b).map(|c| p | 1 << c));
        }
        v.extend((0..8).map(|d| u64::MAX - d));
        v.extend((0..8).map(|d| MAX_DEPTH - 4 + d));
        v.sort_unstable();
        v.dedup();
        v
    };
    run.family(
        "64-bit",
        edge.len() as u64,
        |i| Some(edge[i as usize]),
        |&v, w| {
            w.steps(1);
            w.state(&v);
            depth_judge(DepthValue::from_usize(v as usize), v)
        },
    );
    // Beyond 32 bits, every value whose low half is a valid count.
    run.family(
        "64-bit-wraps",
        32 * 4096,
        |i| Some((1_u64 << (32 + i / 4096)) + (i % 4096) * 524_287),
        |&v, w| {
            w.steps(1);
            w.state(&v);
            depth_judge(DepthValue::from_usize(v as usize), v)
        },
    );
    let small: Vec<u64> = edge.iter().copied().filter(|&v| v <= MAX_DEPTH).collect();
    let k = small.len() as u64;
    run.family(
        "pairs",
        k * k,
        |i| Some((small[(i % k) as usize], small[(i / k) as usize])),
        |&(a, b), w| {
            let x = DepthValue::from_u32(a as u32).ok_or("creation failed")?;
            let y = DepthValue::from_usize(b as usize).ok_or("creation failed")?;
            w.steps(3);
            w.state(&(a, b));
            ensure!(x.cmp(&y) == a.cmp(&b), "compares as {:?}", x.cmp(&y));
            ensure!(x.partial_cmp(&y) == Some(a.cmp(&b)), "compares as {:?}", x.partial_cmp(&y));
            ensure!((x == y) == (a == b) && (x != y) == (a != b), "equality is {}", x == y);
            ensure!(std::cmp::min(x, y).value() == Some(a.min(b) as u32), "minimum {:?}", std::cmp::min(x, y));
            let i = DepthValue::infinity();
            ensure!(
                std::cmp::min(i, y) == y && std::cmp::min(y, i) == y && std::cmp::max(x, i) == i,
                "infinity is not above {b}"
            );
            ensure!(
                i == DepthValue::infinity() && i.cmp(&DepthValue::infinity()) == Ordering::Equal && i.value().is_none(),
                "infinity is not equal to itself"
            );
            Ok(())
        },
    );
}

// C27

type P = (char, u8);

fn connections(calls: &[(Vec<P>, Vec<P>)]) -> Vec<(char, Vec<P>)> {
    let mut succ: BTreeMap<char, BTreeSet<P>> = BTreeMap::new();
    succ.entry('s').or_default().insert(('d', 0));
    succ.entry('d').or_default().insert(('d', 0));
    for (lasts, firsts) in calls {
        for &(from, ff) in lasts {
            for &(to, tf) in firsts {
                let (anchored, must_float) = (tf & 1 != 0, tf & 2 != 0);
                let connected = match from {
                    'd' => !anchored && ff & 1 == 0,
                    's' => !(to == 'n' && !anchored) && !(anchored && must_float),
                    'm' | '\u{1000}'..='\u{2fff}' => to != 'e',
                    _ => true,
                };
                if connected {
                    succ.entry(from).or_default().insert(if to == 'a' { ('x', 0) } else { (to, tf) });
                }
            }
        }
    }
    succ.into_iter().map(|(f, t)| (f, t.into_iter().collect())).collect()
}

pub fn c27(run: &mut Run) {
    // Positions: start, floating start, accept, accept at end of data, empty,
    // ordinary, and one that asserts a multi-line start; with all flags.
    let froms: Vec<P> = "sdepm".chars().flat_map(|c| (0..8).map(move |f| (c, f))).collect();
    let tos: Vec<P> = "sdaenpm".chars().flat_map(|c| (0..8).map(move |f| (c, f))).collect();
    let mut firsts: Vec<Vec<P>> = vec![vec![]];
    firsts.extend(tos.iter().map(|&t| vec![t]));
    for &a in &tos {
        for &b in &tos {
            if a.0 != b.0 {
                firsts.push(vec![a, b]);
            }
        }
    }
    let judge_calls = |calls: &Vec<(Vec<P>, Vec<P>)>, w: &mut W| -> Verdict {
        let mut got = verif::connect(calls);
        got.retain(|g| !g.1.is_empty());
        if calls.len() > 1 {
            // Each call may have a position of its own instead of accept.
            got.iter_mut().for_each(|g| g.1.dedup_by(|a, b| a == b && a.0 == 'x'));
        }
        w.steps(calls.iter().map(|(l, f)| (l.len() * f.len()) as u64 + 1).sum());
        w.state(&got);
        let expected = connections(calls);
        ensure!(got == expected, "connected {got:?} instead of {expected:?}");
        Ok(())
    };
    let judge = |call: &(Vec<P>, Vec<P>), w: &mut W| judge_calls(&vec![call.clone()], w);
    let k = firsts.len() as u64;
    run.family(
        "one-to-up-to-two",
        k * froms.len() as u64,
        |i| Some((vec![froms[(i / k) as usize]], firsts[(i % k) as usize].clone())),
        judge,
    );
    let n = froms.len() as u64;
    let k2 = run.tier(1 + tos.len() as u64, k);
    run.family(
        "two-to-some",
        n * n * k2,
        |i| {
            let (a, b) = (froms[(i / k2 % n) as usize], froms[(i / k2 / n) as usize]);
            if a.0 == b.0 {
                return None;
            }
            Some((vec![a, b], firsts[(i % k2) as usize].clone()))
        },
        judge,
    );
    // Everything at once, in every rotation, with every flag combination of
    // each.
    run.family(
        "all-to-all",
        7 * 5 * 64,
        |i| {
            let f = (i / 35 % 8) as u8;
            let g = (i / 280) as u8;
            let mut l: Vec<P> = "sdepm".chars().map(|c| (c, g)).collect();
            l.rotate_left((i % 5) as usize);
            let mut t: Vec<P> = "sdaenpm".chars().enumerate().map(|(j, c)| (c, if j % 2 == 0 { f } else { f ^ 1 })).collect();
            t.rotate_left((i / 5 % 7) as usize);
            Some((l, t))
        },
        judge,
    );
    // Three firsts.
    let t3 = run.tier(4_u64, 8);
    let kinds: Vec<char> = "sdaenpm".chars().collect();
    run.family(
        "one-to-three",
        5 * t3 * 7 * 7 * 7 * t3 * t3 * t3,
        |i| {
            let mut i = i;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r
            };
            let from = ("sdepm".as_bytes()[take(5) as usize] as char, take(t3) as u8);
            let v: Vec<P> = (0..3).map(|_| (kinds[take(7) as usize], take(t3) as u8)).collect();
            if v[0].0 == v[1].0 || v[0].0 == v[2].0 || v[1].0 == v[2].0 {
                return None;
            }
            Some((vec![from], v))
        },
        judge,
    );
    // Two calls after each other.
    let some = |all: &[P], flags: &[u8]| -> Vec<P> { all.iter().copied().filter(|p| flags.contains(&p.1)).collect() };
    let flags: &[u8] = if run.thorough { &[0, 1, 2, 3, 4] } else { &[0, 1, 3] };
    let (f2, t2) = (some(&froms, flags), some(&tos, flags));
    let one = (f2.len() * t2.len()) as u64;
    let call = |i: u64| (vec![f2[i as usize / t2.len()]], vec![t2[i as usize % t2.len()]]);
    run.family("two-calls", one * one, |i| Some(vec![call(i / one), call(i % one)]), judge_calls);
    // The positions of a longer expression: many ordinary ones, and the special
    // ones at every place among them.
    let sizes: Vec<u32> = if run.thorough {
        (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 500]).collect()
    } else {
        (0..=9).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 129, 257]).collect()
    };
    let n = sizes.len() as u64;
    run.family(
        "many-positions",
        n * n * 8 * 4 * 6,
        |i| {
            let (l, f) = (sizes[(i % n) as usize], sizes[(i / n % n) as usize]);
            if l.min(f) > 17 {
                return None;
            }
            let i = i / (n * n);
            let (tf, asserts, special) = ((i % 8) as u8, i / 8 % 4, i / 32);
            // Of each of the four sorts of positions, or of all of them.
            let extra = |k: u32, side: u32| {
                let base = match (asserts + u64::from(k) * (asserts / 3)) % 4 {
                    0 => 0x100,
                    1 => 0x1000,
                    2 => 0x2000,
                    _ => 0x3000,
                };
                char::from_u32(base + side + k).expect("a character")
            };
            let mut lasts: Vec<P> = (0..l).map(|k| (extra(k, 0), tf)).collect();
            let mut firsts: Vec<P> = (0..f).map(|k| (extra(k, 0x600), if special % 2 == 0 { tf } else { (k % 8) as u8 })).collect();
            let at = |len: u32, where_: u64| match where_ {
                0 => 0,
                1 => len as usize / 2,
                _ => len as usize,
            };
            let (at_l, at_f) = (at(l, special / 2), at(f, special / 2));
            for c in "sd".chars() {
                lasts.insert(at_l, (c, 0));
            }
            for c in "aend".chars() {
                firsts.insert(at_f, (c, tf));
            }
            Some((lasts, firsts))
        },
        judge,
    );
}

// C28

pub fn c28(run: &mut Run) {
    run.family(
        "all",
        (1 << 13) * 4,
        |i| Some(i),
        |&i, w| {
            let b = |k: u32| i >> k & 1 == 1;
            let r = Resources {
                has_outfixes: b(0),
                has_suffixes: b(1),
                has_leftfixes: b(2),
                has_literals: b(3),
                has_states: b(4),
                checks_groups: b(5),
                has_lit_delay: b(6),
                has_lit_check: b(7),
                has_anchored: b(8),
                has_anchored_multiple: b(9),
                has_anchored_large: b(10),
                has_floating: b(11),
                has_eod: b(12),
            };
            let (streaming, vectored) = (b(13), b(14));
            let got = verif::pick_runtime(&r, streaming, vectored);
            w.steps(1);
            w.state(&(i, got));
            w.outcome(if got == 'p' { "pure literal" } else { "full" });
            let pure = r.has_floating
                && !(r.has_outfixes
                    || r.has_suffixes
                    || r.has_leftfixes
                    || r.has_anchored
                    || r.has_eod
                    || r.has_states
                    || r.has_lit_delay
                    || r.checks_groups
                    || (streaming && r.has_lit_check));
            let expected = if pure { 'p' } else { 'f' };
            ensure!(got == expected, "{r:?}, streaming {streaming}: {got} instead of {expected}");
            Ok(())
        },
    );
}

// C30

pub fn c30(run: &mut Run) {
    // Sets of edges between the four special and two ordinary vertices.
    let all: Vec<(usize, usize)> = (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).collect();
    let sets = edge_sets(&all, run.tier(3, 4));
    const LABELS: &[&[(usize, u32)]] = &[
        &[],
        &[(4, 0)],
        &[(4, 0), (5, 1)],
        &[(5, 0), (5, 1), (5, 2)],
        &[(0, 1), (1, 2), (2, 0), (3, 1)],
        &[(2, 1)],
        &[(0, 0), (1, 1), (4, 2)],
    ];
    // The minimum lengths of reports 0 to 2.
    let lengths: Vec<Vec<u64>> = (0..27_u64)
        .map(|i| [i % 3, i / 3 % 3, i / 9].map(|k| [0, 1, u64::MAX][k as usize]).to_vec())
        .collect();
    // Prior literals and settings.
    let priors: Vec<(Limits, Vec<AddLiteral>)> = vec![
        (Limits::default(), vec![]),
        (Limits::default(), vec![add(cased("ab"), 0), add(caseless("ab"), 1)]),
        (
            Limits {
                allow_small_write: false,
                ..Limits::default()
            },
            vec![],
        ),
        (
            Limits {
                small_write_max_literals: 1,
                ..Limits::default()
            },
            vec![add(cased("x"), 0), add(cased("y"), 0)],
        ),
    ];
    let (a, b, c, d) = (sets.len() as u64, LABELS.len() as u64, lengths.len() as u64, priors.len() as u64);
    run.family(
        "automata",
        a * b * c * d * 2,
        |i| {
            let som = i % 2 == 1;
            let (l, ops) = &priors[(i / 2 % d) as usize];
            let i = i / 2 / d;
            let g = SmallWriteGraph {
                num_vertices: 2,
                edges: sets[(i / c / b) as usize].clone(),
                reports: LABELS[(i / c % b) as usize].to_vec(),
                som,
                min_lengths: lengths[(i % c) as usize].clone(),
            };
            Some((l.clone(), ops.clone(), g))
        },
        |(l, ops, g), w| automaton_judge(l, ops, g, w),
    );
    // Every size of a minimum length, of one of several reports.
    run.family(
        "minimum-lengths",
        64 * 3 * 3,
        |i| {
            let k = i % 64;
            let at = (i / 64 % 3) as usize;
            let mut min_lengths = vec![0; 3];
            min_lengths[at] = match i / 192 {
                0 => 1 << k,
                1 => (1 << k) - 1,
                _ => u64::MAX << k,
            };
            let g = SmallWriteGraph {
                num_vertices: 1,
                edges: vec![(0, 4), (4, 3)],
                reports: (0..3).map(|r| (4, r)).collect(),
                som: false,
                min_lengths,
            };
            Some((Limits::default(), vec![], g))
        },
        |(l, ops, g), w| automaton_judge(l, ops, g, w),
    );
    // Chains of vertices, each with a report, of which one matters.
    let max = run.tier(300_u64, 600);
    run.family(
        "chains",
        max * max * 4,
        |i| {
            let (n, bad, v) = (i % max + 1, i / max % max, i / max / max);
            let edge = |x: u64| x < 40 || (x.next_power_of_two() - x).min(x.wrapping_sub(x.next_power_of_two() / 2)) < 2;
            if bad > n || !edge(n) || !(edge(bad) || n - bad < 3) {
                return None;
            }
            let n = n as usize;
            let mut edges = vec![(0, 4), (3 + n, 2 + v as usize % 2)];
            edges.extend((1..n).map(|k| (3 + k, 4 + k)));
            if v >= 2 {
                edges.extend((0..n).map(|k| (4 + k, 2)));
            }
            let mut min_lengths = vec![0; n];
            if let Some(x) = min_lengths.get_mut(bad as usize) {
                *x = 1 + bad;
            }
            let g = SmallWriteGraph {
                num_vertices: n,
                edges,
                reports: (0..n).map(|k| (4 + k, k as u32)).collect(),
                som: false,
                min_lengths,
            };
            Some((Limits::default(), vec![add(cased("q"), 0)], g))
        },
        |(l, ops, g), w| automaton_judge(l, ops, g, w),
    );
}

/// All sets of up to `max` of the edges.
pub fn edge_sets(all: &[(usize, usize)], max: usize) -> Vec<Vec<(usize, usize)>> {
    let mut sets: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut last = vec![(0, vec![])];
    for _ in 0..max {
        let mut grown = Vec::new();
        for (from, s) in &last {
            for (k, e) in all.iter().enumerate().skip(*from) {
                let mut s: Vec<(usize, usize)> = s.clone();
                s.push(*e);
                grown.push((k + 1, s));
            }
        }
        sets.extend(grown.iter().map(|g| g.1.clone()));
        last = grown;
    }
    sets
}

fn automaton_judge(l: &Limits, ops: &[AddLiteral], g: &SmallWriteGraph, w: &mut W) -> Verdict {
    let (before, after, handled) = verif::small_write_graph(ops.len(), l, ops, g);
    w.steps(1 + ops.len() as u64);
    w.state(&(&before, &after, handled));
    let fixed = [(0, 1), (1, 1), (2, 3)];
    let has = |a: usize, b: usize| g.edges.contains(&(a, b)) || fixed.contains(&(a, b));
    let vacuous = has(0, 2) || has(0, 3) || has(1, 2) || has(1, 3);
    let long = g
        .reports
        .iter()
        .any(|&(v, r)| (has(v, 2) || has(v, 3)) && g.min_lengths[r as usize] > 0);
    let refused = g.som || vacuous || long;
    w.outcome(match (before.poisoned, refused) {
        (true, _) => "given up before",
        (false, true) => "refused",
        (false, false) => "not refused",
    });
    ensure!(
        after.cased == before.cased && after.caseless == before.caseless,
        "the trees change: {before:?} becomes {after:?}"
    );
    ensure!(
        after.poisoned == (before.poisoned || refused),
        "given up: {} instead of {}",
        after.poisoned,
        before.poisoned || refused
    );
    ensure!(handled || !after.poisoned, "it panics although it is given up");
    Ok(())
}
