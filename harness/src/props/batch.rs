//! Properties of lists of expressions.

use super::expr::{accepted, lists, look, singles};
use crate::dom::{self, err_obs, item, Item, Job, Obs};
use crate::engine::{Run, Verdict, W};
use crate::ensure;
use crate::refmodel::{self as rm, reference, MAX_LENGTH, QUIET, SINGLEMATCH};
use rescan::verif::{Limits, ReportObs};
use rescan::Flags;
use std::collections::HashMap;

/// The first expression that disagrees with the first one of the same
/// identifier on SINGLEMATCH, and that one.
fn conflict(items: &[Item]) -> Option<(usize, usize)> {
    let mut first: HashMap<u32, usize> = HashMap::new();
    for (i, it) in items.iter().enumerate() {
        let j = *first.entry(it.id).or_insert(i);
        if (it.f ^ items[j].f) & SINGLEMATCH != 0 {
            return Some((i, j));
        }
    }
    None
}

/// Whether the reports that stand for a given expression in an observation
/// are the right ones.
fn report_of(obs: &Obs, id: u32) -> Option<&ReportObs> {
    obs.trace.ng.as_ref()?.reports.reports.get(id as usize)
}

// C07

fn batch_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    if job.items.is_empty() {
        ensure!(obs.out.is_err(), "an empty list was accepted");
        return Ok(());
    }
    // Every expression by itself.
    let clash = conflict(&job.items).map(|c| c.0);
    let mut cache: HashMap<&Item, Obs> = HashMap::new();
    for (i, it) in job.items.iter().enumerate() {
        if !cache.contains_key(it) {
            let alone = look(
                &Job {
                    items: vec![Item { id: it.id, ..it.clone() }],
                    mode: job.mode,
                    limits: None,
                },
                w,
            );
            cache.insert(it, alone);
        }
        let alone = &cache[it];
        match &alone.out {
            Err(e) => {
                let Err(b) = &obs.out else {
                    return Err(format!("accepted although expression {i} is rejected alone: {:?}", e.text));
                };
                ensure!(
                    b.index == Some(i as u32),
                    "{:?} has index {:?} although expression {i} cannot be added",
                    b.text,
                    b.index
                );
                ensure!(
                    b.text.ends_with(&format!("in expression {i}")),
                    "{:?} does not end with 'in expression {i}'",
                    b.text
                );
                ensure!(
                    b.kind == e.kind && b.reason == e.reason,
                    "rejected because {:?}, but alone because {:?}",
                    b.reason,
                    e.reason
                );
                return Ok(());
            }
            Ok(m) => {
                if clash == Some(i) {
                    let Err(b) = &obs.out else {
                        return Err(format!("accepted although expression {i} conflicts with another one"));
                    };
                    ensure!(
                        b.index == Some(i as u32),
                        "{:?} has index {:?} although expression {i} cannot be added",
                        b.text,
                        b.index
                    );
                    ensure!(
                        b.text.ends_with(&format!("in expression {i}")),
                        "{:?} does not end with 'in expression {i}'",
                        b.text
                    );
                    return Ok(());
                }
                if let Ok(b) = &obs.out {
                    ensure!(m == b, "database mode is {b} instead of {m}");
                }
                let (Some(o), [a]) = (obs.trace.expressions.get(i), &alone.trace.expressions[..]) else {
                    return Err(format!("expression {i} was not processed"));
                };
                let lits = |e: &rescan::verif::ExprObs| e.literals.iter().map(|l| l.0.clone()).collect::<Vec<_>>();
                ensure!(
                    o.tree == a.tree
                        && (o.caseless, o.dotall, o.multiline, o.ucp, o.utf8, o.ignore_space)
                            == (a.caseless, a.dotall, a.multiline, a.ucp, a.utf8, a.ignore_space)
                        && lits(o) == lits(a)
                        && o.graphs == a.graphs,
                    "expression {i} became {o:?}, but alone {a:?}"
                );
                if obs.out.is_ok() {
                    for (l, k) in o.literals.iter().zip(&a.literals) {
                        ensure!(l.1.len() == k.1.len(), "expression {i}: {l:?} {k:?}");
                        for (x, y) in l.1.iter().zip(&k.1) {
                            let (x, y) = (report_of(&obs, *x), report_of(alone, *y));
                            // Exhaustion keys depend on the other expressions.
                            let strip = |r: Option<&ReportObs>| {
                                r.map(|r| (r.som_relative, r.on_match, r.offset_adjust, r.quiet, r.som_distance, r.ekey.is_some()))
                            };
                            ensure!(
                                strip(x) == strip(y),
                                "expression {i} raises {x:?}, but alone {y:?}"
                            );
                        }
                    }
                }
            }
        }
    }
    ensure!(
        obs.out.is_ok(),
        "rejected ({:?}), although every expression is accepted alone and none conflict",
        obs.out
    );
    ensure!(
        obs.trace.expressions.len() == job.items.len(),
        "{} expressions were processed instead of {}",
        obs.trace.expressions.len(),
        job.items.len()
    );
    Ok(())
}

pub fn c07(run: &mut Run) {
    lists(run, &batch_judge);
    // One expression alone.
    let n = dom::SHORT.len() as u64;
    run.family(
        "one-is-a-batch-of-one",
        n * 2048 * 2,
        |i| {
            let mut j = dom::single(dom::SHORT[(i % n) as usize], (i / n % 2048) as u16);
            j.mode = (i / n / 2048 * 2) as u8;
            Some(j)
        },
        |job, w| {
            let a = look(job, w);
            let it = &job.items[0];
            rescan::verif::start();
            let r = rescan::compile_multi(&[&it.e], &[dom::flags(it.f)], &[0], &dom::mode(job.mode));
            let trace = rescan::verif::take();
            let out = match &r {
                Ok(db) => Ok(rescan::verif::database_mode(db)),
                Err(e) => Err(err_obs(e)),
            };
            let b = Obs { out, trace };
            ensure!(a == b, "alone: {a:?}, as a batch: {b:?}");
            Ok(())
        },
    );
    // An invalid expression at every position of lists of various lengths, and
    // a second one behind it.
    let bad = ["(", ")", "é", "(*X)", "a|b)", "q"];
    let max = run.tier(40_u64, 120);
    run.family(
        "first-culprit",
        max * max * 6,
        |i| {
            let (n, k, b) = (i % max + 1, i / max % max, (i / max / max) as usize);
            if k >= n {
                return None;
            }
            let items = (0..n)
                .map(|j| {
                    if j == k {
                        item(bad[b], if b == 5 { 0x0500 } else { 0x0001 }, j as u32)
                    } else if j > k && j % 3 == 0 {
                        item(bad[(b + 1) % 5], 0, 0)
                    } else {
                        item(if j % 2 == 0 { "ab" } else { "a|b" }, 0, (j / 2) as u32)
                    }
                })
                .collect();
            Some(Job { items, mode: (i % 6) as u8, limits: None })
        },
        batch_judge,
    );
    let max = run.tier(6_u64, 9);
    run.family(
        "list-lengths",
        max * max * max,
        |i| Some((i % max, i / max % max, i / max / max)),
        |&(a, b, c), w| {
            let es = vec!["abc"; a as usize];
            rescan::verif::start();
            let r = rescan::compile_multi(
                &es,
                &vec![Flags::empty(); b as usize],
                &vec![7; c as usize],
                &rescan::Mode::Block,
            );
            let t = rescan::verif::take();
            w.steps(1);
            w.state(&(a, b, c, &t));
            let ok = a > 0 && a == b && a == c;
            ensure!(
                r.is_ok() == ok,
                "{a} expressions, {b} flags and {c} identifiers: {:?}",
                r.map(|_| ()).map_err(|e| e.to_string())
            );
            Ok(())
        },
    );
    run.family(
        "long-list-lengths",
        27,
        |i| Some((i % 3, i / 3 % 3, i / 9)),
        |&(a, b, c), w| {
            let len = |k: u64| [300, 301, 556][k as usize];
            let r = rescan::compile_multi(
                &vec!["a|b"; len(a)],
                &vec![Flags::empty(); len(b)],
                &vec![7; len(c)],
                &rescan::Mode::Block,
            );
            w.steps(1);
            w.state(&(a, b, c));
            ensure!(r.is_ok() == (a == b && a == c), "{a} {b} {c}");
            Ok(())
        },
    );
}

// C08

fn single_match_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    if job.items.is_empty() {
        return Ok(());
    }
    let invalid = job
        .items
        .iter()
        .position(|it| reference(&it.e, it.f, MAX_LENGTH).is_err());
    let clash = conflict(&job.items);
    ensure!(
        obs.out.is_ok() == (invalid.is_none() && clash.is_none()),
        "{:?}, but the first invalid expression is {invalid:?} and the first conflict {clash:?}",
        obs.out
    );
    if let (Err(e), Some((i, j))) = (&obs.out, clash) {
        if invalid.map_or(true, |k| k > i) {
            ensure!(
                e.index == Some(i as u32),
                "{:?} is attributed to {:?} instead of {i}",
                e.text,
                e.index
            );
            for (what, n) in [("index", i as u64), ("index", j as u64), ("match ID", u64::from(job.items[i].id))] {
                ensure!(
                    rm::mentions(&e.reason, what, n),
                    "{:?} does not contain '{what} {n}' (expressions {i} and {j} conflict)",
                    e.text
                );
            }
        }
    }
    if obs.out.is_ok() {
        let all = job.items.iter().all(|it| it.f & SINGLEMATCH != 0);
        let ng = obs.trace.ng.as_ref().ok_or("nothing was built")?;
        ensure!(
            ng.reports.global_exhaust == all,
            "exhaustible as a whole: {} instead of {all}",
            ng.reports.global_exhaust
        );
    }
    Ok(())
}

pub fn c08(run: &mut Run) {
    lists(run, &single_match_judge);
    let mut elements = Vec::new();
    for e in ["ab", "a|b", "", "(*UTF8)(c)"] {
        for f in [0, SINGLEMATCH] {
            for id in [0, 5] {
                elements.push(item(e, f, id));
            }
        }
    }
    elements.push(item("(", SINGLEMATCH, 0));
    let n = dom::words(elements.len() as u64, run.tier(4, 5));
    run.family("short-lists", n, |i| Some(dom::list(i, &elements)), single_match_judge);
    let mut ids = Vec::new();
    for &id in dom::IDS {
        for f in [0, SINGLEMATCH, SINGLEMATCH | 1, QUIET | SINGLEMATCH, 0x06f7] {
            ids.push(item(if id % 2 == 0 { "xy" } else { "x|y" }, f, id));
        }
    }
    let n = dom::words(ids.len() as u64, run.tier(2, 3));
    run.family("identifiers", n, |i| Some(dom::list(i, &ids)), single_match_judge);
    // The pair that conflicts at every two positions of a longer list.
    let max = run.tier(48_u64, 110);
    run.family(
        "positions",
        max * max * 8,
        |i| {
            let (b, a, v) = (i % max, i / max % max, i / max / max);
            if a >= b {
                return None;
            }
            let flip = v % 2 * 8;
            let items = (0..max)
                .map(|k| {
                    let e = if (v / 2 + k) % 2 == 0 { "pq" } else { "p|q" };
                    if k == a {
                        item(e, flip as u16, 1000)
                    } else if k == b {
                        item(if v / 4 == 0 { e } else { "" }, 8 - flip as u16, 1000)
                    } else {
                        item(e, (k % 2) as u16 * 8, k as u32)
                    }
                })
                .collect();
            Some(Job { items, mode: 0, limits: None })
        },
        single_match_judge,
    );
    // The same without a conflict: everything is exhaustible but for one.
    run.family(
        "exhaustible",
        max * 3,
        |i| {
            let (k, v) = (i % max, i / max);
            let items = (0..max)
                .map(|j| {
                    item(
                        if (j + v) % 2 == 0 { "pq" } else { "" },
                        if j == k && v > 0 { 0 } else { SINGLEMATCH },
                        if j == k { 99_999 } else { j as u32 % 7 },
                    )
                })
                .collect();
            Some(Job { items, mode: 0, limits: None })
        },
        single_match_judge,
    );
}

// C09

/// The number of internal reports of a list of literals.
fn reports_needed(items: &[Item]) -> Vec<usize> {
    let mut seen: Vec<(u32, u16)> = Vec::new();
    items
        .iter()
        .map(|it| {
            if let Ok(p) = reference(&it.e, it.f, usize::MAX) {
                if p.chars > 0 && !p.has_bar {
                    let r = (it.id, it.f & (QUIET | SINGLEMATCH));
                    if !seen.contains(&r) {
                        seen.push(r);
                    }
                }
            }
            seen.len()
        })
        .collect()
}

fn limit_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    let l = job.limits.clone().unwrap_or_else(|| Limits {
        pattern_count: 8_000_000,
        pattern_length: 16_000,
        report_count: 32_000_000,
        ..Limits::default()
    });
    if job.items.is_empty() {
        ensure!(
            obs.out.as_ref().is_err_and(|e| e.kind != 'r'),
            "an empty list exceeds no limit, but: {:?}",
            obs.out
        );
        return Ok(());
    }
    if job.items.len() > l.pattern_count {
        let Err(e) = &obs.out else {
            return Err(format!("{} expressions were accepted", job.items.len()));
        };
        ensure!(
            obs.trace.expressions.is_empty(),
            "expressions were processed before their number was checked"
        );
        ensure!(
            e.text.to_lowercase().contains("number") && e.text.to_lowercase().contains("pattern"),
            "{:?} does not say that there are too many expressions",
            e.text
        );
        return Ok(());
    }
    let clash = conflict(&job.items).map(|c| c.0);
    let needed = reports_needed(&job.items);
    for (i, it) in job.items.iter().enumerate() {
        let long = it.e.len() > l.pattern_length;
        let invalid = reference(&it.e, it.f, usize::MAX).is_err();
        let excess = needed[i] > l.report_count;
        if !long && !invalid && clash != Some(i) && !excess {
            ensure!(
                obs.trace.expressions.len() > i,
                "expression {i} was not processed, although it is within the limits: {:?}",
                obs.out
            );
            continue;
        }
        let Err(e) = &obs.out else {
            return Err(format!(
                "accepted, but expression {i} is too long: {long}, invalid: {invalid}, needs too many reports: {excess}"
            ));
        };
        ensure!(
            e.index == Some(i as u32),
            "{:?} is attributed to {:?} instead of {i}",
            e.text,
            e.index
        );
        let text = e.text.to_lowercase();
        if long {
            ensure!(text.contains("length"), "{:?} does not say that expression {i} is too long", e.text);
            ensure!(
                obs.trace.expressions.len() == i,
                "expression {i} was parsed before its length was checked"
            );
        } else {
            ensure!(!text.contains("length"), "expression {i} is within the limits, but: {:?}", e.text);
            if !invalid && clash != Some(i) {
                ensure!(dom::is_resource(e), "{:?} is not a resource limit error", e.text);
            } else {
                ensure!(e.kind != 'r', "expression {i} is within the limits, but: {:?}", e.text);
            }
        }
        return Ok(());
    }
    ensure!(
        obs.out.is_ok(),
        "rejected ({:?}), although all limits are respected",
        obs.out
    );
    let n = obs.trace.ng.as_ref().map_or(0, |ng| ng.reports.reports.len());
    ensure!(n <= l.report_count, "there are {n} reports");
    Ok(())
}

pub fn c09(run: &mut Run) {
    let elements = vec![
        item("a", 0, 0),
        item("ab", 0, 0),
        item("bcd", 0, 1),
        item("bc", 1, 2),
        item("b|c", 0, 3),
        item("", 0, 4),
        item("(a)", QUIET, 1),
        item("(x", 0, 5),
        item("é", 0, 5),
        item("k", SINGLEMATCH, 6),
        item("ké|", 0x0500, 6),
        item("(*UTF8)xyz", 0, 7),
        item("b", SINGLEMATCH, 0),
    ];
    let lens = run.tier(3, 4);
    let n = dom::words(elements.len() as u64, lens);
    const SMALL: &[(usize, usize, usize)] = &[
        (0, 0, 0), (0, 9, 9), (1, 9, 9), (2, 9, 9), (3, 9, 9), (9, 0, 9), (9, 1, 9), (9, 2, 9), (9, 3, 9), (9, 4, 9),
        (9, 99, 0), (9, 99, 1), (9, 99, 2), (9, 99, 3), (9, 99, 4), (2, 2, 2), (1, 1, 1), (3, 3, 1), (2, 3, 1), (2, 9, 0),
        (3, 10, 2), (3, 2, 0),
    ];
    let k = SMALL.len() as u64;
    run.family(
        "small-limits",
        n * k,
        |i| {
            let (c, l, r) = SMALL[(i % k) as usize];
            let mut job = dom::list(i / k, &elements);
            job.mode = (i % 6) as u8;
            job.limits = Some(Limits {
                pattern_count: c,
                pattern_length: l,
                report_count: r,
                ..Limits::default()
            });
            Some(job)
        },
        limit_judge,
    );
    // Every limit on the length against every length.
    let max = run.tier(130_u64, 500);
    run.family(
        "length-limits",
        max * max * 2,
        |i| {
            let (n, l) = (i % max, i / max % max);
            let e = if i / max / max == 0 { "a".repeat(n as usize) } else { "é(".repeat(n as usize) };
            Some(Job {
                items: vec![item(&e, 0, 0)],
                mode: 0,
                limits: Some(Limits {
                    pattern_length: l as usize,
                    ..Limits::default()
                }),
            })
        },
        limit_judge,
    );
    run.family(
        "count-and-report-limits",
        max * max * 3,
        |i| {
            let (n, l, v) = (i % max, i / max % max, i / max / max);
            let items = (0..n)
                .map(|k| {
                    let id = if v == 2 { k / 2 } else { k };
                    item("ab", if v == 1 { (k % 2) as u16 * QUIET } else { 0 }, id as u32)
                })
                .collect();
            let mut limits = Limits::default();
            if v == 0 {
                limits.pattern_count = l as usize;
            } else {
                limits.report_count = l as usize;
            }
            Some(Job { items, mode: 0, limits: Some(limits) })
        },
        limit_judge,
    );
    // The default limits.
    let kinds: &[fn(usize) -> String] = &[
        |n| "a".repeat(n),
        |n| "é".repeat(n / 2) + &"a".repeat(n % 2),
        |n| "(".repeat(n),
        |n| "a|".repeat(n / 2) + &"b".repeat(n % 2),
        |n| ")".to_string() + &"x".repeat(n - 1),
        |n| "(*X)".to_string() + &"x".repeat(n - 4),
        |n| "(*UTF8)".to_string() + &"x".repeat(n - 7),
    ];
    run.family(
        "default-length-limit",
        kinds.len() as u64 * 200 * 2,
        |i| {
            let n = 15_900 + (i / 2 / kinds.len() as u64) as usize;
            let mut job = dom::single(&kinds[(i / 2) as usize % kinds.len()](n), (i % 2) as u16 * 0x0500);
            job.mode = (i % 6) as u8;
            Some(job)
        },
        limit_judge,
    );
    run.family(
        "default-length-limit-doubling",
        24,
        |i| Some(dom::single(&"a".repeat((1 << (i / 2)) - 1 + (i % 2) as usize), 0)),
        limit_judge,
    );
    run.family(
        "list-errors",
        4 * 4 * 4,
        |i| Some((i % 4, i / 4 % 4, i / 16)),
        |&(a, b, c), w| {
            let r = rescan::compile_multi(
                &vec!["abc"; a as usize],
                &vec![Flags::empty(); b as usize],
                &vec![7; c as usize],
                &rescan::Mode::Block,
            );
            w.steps(1);
            w.state(&r.is_ok());
            if let Err(e) = r {
                ensure!(dom::not_resource(&err_obs(&e)), "no limit is exceeded, but: {e}");
            }
            Ok(())
        },
    );
    let counts: &[usize] = run.tier(&[8_000_001, 8_000_000, 16_777_216], &[8_000_001, 8_000_000, 7_999_999, 16_777_216]);
    run.family(
        "default-count-limit",
        counts.len() as u64,
        |i| Some(counts[i as usize]),
        |&n, w| {
            // The first expression is invalid, so that acceptable numbers do
            // not take long.
            let mut es = vec!["a"; n];
            es[0] = "(";
            let fs = vec![Flags::empty(); n];
            let ids = vec![0; n];
            let r = rescan::compile_multi(&es, &fs, &ids, &rescan::Mode::Block);
            let e = err_obs(&r.err().ok_or("an invalid expression was accepted")?);
            w.steps(1);
            w.state(&e);
            if n > 8_000_000 {
                ensure!(e.text.to_lowercase().contains("number"), "{n} expressions: {:?}", e.text);
            } else {
                ensure!(e.index == Some(0), "{n} expressions: {:?}", e.text);
            }
            Ok(())
        },
    );
    // Directly: nothing takes effect beyond the limit, and equal reports need
    // no room.
    super::parts::report_limits(run);
}

// C10

fn literal_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    let l = job.limits.clone().unwrap_or_default();
    if let Some(ng) = &obs.trace.ng {
        ensure!(
            !ng.has_som || job.items.iter().any(|it| it.f & rm::SOM != 0),
            "start of match is recorded as needed, although nothing asks for it"
        );
    }
    for (it, p, o) in accepted(job, &obs).unwrap_or_default() {
        let Some(o) = o else {
            return Err(format!("{it:?} was not processed"));
        };
        let lit: Vec<(u8, bool)> = rm::chars_of(&it.e, &p)
            .into_iter()
            .map(|c| {
                if p.modes.caseless && c.is_ascii_alphabetic() {
                    (c.to_ascii_uppercase(), true)
                } else {
                    (c, false)
                }
            })
            .collect();
        let is_literal = !lit.is_empty() && !p.has_bar && l.allow_literal && l.shortcut_literals;
        if !is_literal {
            ensure!(
                o.literals.is_empty() && o.graphs.len() == 1,
                "{it:?} became {} literals and {} automata",
                o.literals.len(),
                o.graphs.len()
            );
            continue;
        }
        ensure!(
            o.literals.len() == 1 && o.graphs.is_empty(),
            "{it:?} became {} literals and {} automata",
            o.literals.len(),
            o.graphs.len()
        );
        ensure!(
            o.bounds.iter().all(|b| *b == (false, false)),
            "{it:?} became a literal that is anchored, or bound to the end of the data: {:?}",
            o.bounds
        );
        ensure!(
            o.literals[0].0 == lit,
            "{it:?} became the literal {:?} instead of {lit:?}",
            o.literals[0].0
        );
        let ng = obs.trace.ng.as_ref().ok_or("nothing was built")?;
        let [id] = o.literals[0].1[..] else {
            return Err(format!("{it:?} raises {:?}", o.literals[0].1));
        };
        let r = ng
            .reports
            .reports
            .get(id as usize)
            .ok_or_else(|| format!("{it:?} raises the unknown report {id}"))?;
        let ekey = if it.f & SINGLEMATCH != 0 {
            let k = ng.reports.ekeys.get(&i64::from(it.id)).copied();
            ensure!(k.is_some(), "{it:?} has no exhaustion key");
            k
        } else {
            None
        };
        let expected = ReportObs {
            som_relative: false,
            on_match: it.id,
            offset_adjust: 0,
            ekey,
            quiet: it.f & QUIET != 0,
            som_distance: 0,
        };
        ensure!(*r == expected, "{it:?} raises {r:?} instead of {expected:?}");
    }
    Ok(())
}

pub fn c10(run: &mut Run) {
    singles(run, true, &literal_judge);
    lists(run, &literal_judge);
    // Two identifiers and all the flags that matter for the report, in all
    // orders.
    let mut elements = Vec::new();
    for e in ["ab", "(c)", "a|b"] {
        for f in [0, SINGLEMATCH, QUIET, QUIET | SINGLEMATCH] {
            for id in [3, 4] {
                elements.push(item(e, f, id));
            }
        }
    }
    let n = dom::words(elements.len() as u64, run.tier(3, 4));
    run.family("report-lists", n, |i| Some(dom::list(i, &elements)), literal_judge);
    super::parts::ng_literals(run);
}

// C12

fn width_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    if obs.out.is_err() {
        return Ok(());
    }
    let ng = obs.trace.ng.as_ref().ok_or("nothing was built")?;
    let expected = obs
        .trace
        .expressions
        .iter()
        .flat_map(|e| e.literals.iter().map(|l| l.0.len() as u32))
        .min();
    ensure!(
        ng.min_width == expected,
        "the minimum width is {:?} instead of {expected:?}",
        ng.min_width
    );
    Ok(())
}

pub fn c12(run: &mut Run) {
    singles(run, true, &width_judge);
    lists(run, &width_judge);
    let elements: Vec<Item> = ["a", "ab", "abc", "(a|)", "", "(wxyz)", "(*UTF8)qq", "Abcde"]
        .iter()
        .enumerate()
        .flat_map(|(k, e)| [item(e, 0, k as u32), item(e, 0x0009, 77), item(e, 0x0400, k as u32 / 2)])
        .collect();
    let n = dom::words(elements.len() as u64, run.tier(3, 4));
    run.family("orders", n, |i| Some(dom::list(i, &elements)), width_judge);
    // Pairs and triples of lengths.
    const LENS: &[usize] = &[0, 1, 2, 3, 63, 64, 69, 70, 71, 127, 128, 255, 256, 257, 1000, 15_999, 16_000];
    let k = LENS.len() as u64;
    run.family(
        "lengths",
        k * k * k,
        |i| {
            let items = [i % k, i / k % k, i / k / k]
                .iter()
                .enumerate()
                .map(|(j, &l)| item(&"x".repeat(LENS[l as usize]), (i % 2) as u16, j as u32))
                .collect();
            Some(Job { items, mode: 0, limits: None })
        },
        width_judge,
    );
    let max = run.tier(300_u64, 1500);
    run.family(
        "two-lengths",
        max * max,
        |i| {
            let (a, b) = (i % max, i / max);
            if a.abs_diff(b) > 3 && a > 20 && b > 20 {
                return None;
            }
            Some(Job {
                items: vec![
                    item(&"x".repeat(a as usize), 0, 0),
                    item(&"y".repeat(b as usize), 1, 1),
                ],
                mode: 0,
                limits: None,
            })
        },
        width_judge,
    );
}

