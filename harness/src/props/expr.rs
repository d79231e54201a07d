//! Properties of single expressions.

use crate::dom::{self, item, observe, single, Job, Obs, Strs};
use crate::engine::{Run, Verdict, W};
use crate::ensure;
use crate::refmodel::{self as rm, reference, Reject, MAX_LENGTH};
use rescan::verif::{ExprObs, GraphObs, Limits, TreeEvent};

/// Settings with which everything is turned into an automaton.
pub fn no_literals(i: u64) -> Limits {
    if i % 2 == 0 {
        Limits {
            allow_literal: false,
            ..Limits::default()
        }
    } else {
        Limits {
            shortcut_literals: false,
            ..Limits::default()
        }
    }
}

/// Runs a judge over expressions with each set of flags.
pub fn strs(run: &mut Run, s: &Strs, sets: &[u16], graphs: bool, f: &(dyn Fn(&Job, &mut W) -> Verdict + Sync)) {
    let k = sets.len() as u64;
    let name = if graphs { format!("{}-as-automata", s.name) } else { s.name.to_string() };
    run.family(
        &name,
        s.n * k,
        |i| {
            let e = (s.get)(i / k)?;
            Some(Job {
                items: vec![item(&e, sets[(i % k) as usize], 0)],
                mode: (i / k % 6) as u8,
                limits: graphs.then(|| no_literals(i)),
            })
        },
        |job, w| f(job, w),
    );
}

/// Runs a judge over all domains of single expressions.
pub fn singles(run: &mut Run, graphs: bool, judge: &(dyn Fn(&Job, &mut W) -> Verdict + Sync)) {
    let t = run.thorough;
    let n = dom::SHORT.len() as u64;
    run.family(
        "short-all-flags-all-modes",
        n * 2048 * 6,
        |i| {
            let mut j = single(dom::SHORT[(i % n) as usize], (i / n % 2048) as u16);
            j.mode = (i / n / 2048) as u8;
            Some(j)
        },
        judge,
    );
    let ids = dom::IDS.len() as u64;
    run.family(
        "short-ids",
        n * ids * 6,
        |i| {
            let mut j = single(dom::SHORT[(i % n) as usize], dom::FLAG_SETS[(i / n / ids) as usize]);
            j.items[0].id = dom::IDS[(i / n % ids) as usize];
            j.mode = (i % 6) as u8;
            Some(j)
        },
        judge,
    );
    for s in dom::expressions(t) {
        let sets: &[u16] = match s.name {
            "templates" => &[0, 0x0009, 0x0500],
            _ => dom::FLAG_SETS,
        };
        strs(run, &s, sets, false, judge);
    }
    strs(run, &dom::unicode(t), &[0, 1], false, judge);
    let sets = dom::few_flags();
    let sizes: &[usize] = if t { &[2, 5, 12, 33, 70, 130, 300, 700, 1100, 3000] } else { &[5, 33, 130, 300, 1100] };
    let (k, l) = (sets.len() as u64, sizes.len() as u64);
    run.family(
        "templates-few-flags",
        dom::TEMPLATES.len() as u64 * k * l,
        |i| {
            let e = dom::TEMPLATES[(i / k / l) as usize].1(sizes[(i / k % l) as usize]);
            let mut j = single(&e, sets[(i % k) as usize]);
            j.mode = (i % 6) as u8;
            Some(j)
        },
        judge,
    );
    if graphs {
        for s in dom::expressions(false) {
            strs(run, &s, &[0, 0x0009], true, judge);
        }
    }
}

/// Runs a judge over the domains of lists.
pub fn lists(run: &mut Run, judge: &(dyn Fn(&Job, &mut W) -> Verdict + Sync)) {
    let elements = dom::elements();
    let n = dom::words(elements.len() as u64, run.tier(4, 5));
    run.family("lists", n, |i| Some(dom::list(i, &elements)), judge);
    // A pair of expressions with all combinations of three flags each.
    let es: &[&str] = &["abc", "aB", "a|B", "(x)", "", "(*UTF8)q", "(*UCP)(|z)"];
    let fs: &[u16] = &[0, 0x0001, 0x0008, 0x0400, 0x0409, 0x0066];
    let (k, l) = (es.len() as u64, fs.len() as u64);
    run.family(
        "pairs",
        k * k * l * l * 3,
        |i| {
            let pick = |i: u64, id| item(es[(i % k) as usize], fs[(i / k % l) as usize], id);
            let ids = i / (k * k * l * l);
            Some(Job {
                items: vec![
                    pick(i, if ids == 2 { 9 } else { 0 }),
                    pick(i / (k * l), if ids == 0 { 0 } else { 1 }),
                ],
                mode: (i % 6) as u8,
                limits: None,
            })
        },
        judge,
    );
    // A pair of expressions with few flags each.
    let es: &[&str] = &["aB", "c|D", "(*UTF8)e", "(1)"];
    let fs: Vec<_> = dom::few_flags().into_iter().filter(|f| f.count_ones() <= 2).collect();
    let (k, l) = (es.len() as u64, fs.len() as u64);
    run.family(
        "pairs-few-flags",
        k * k * l * l * 2,
        |i| {
            let pick = |i: u64, id| item(es[(i % k) as usize], fs[(i / k % l) as usize], id);
            Some(Job {
                items: vec![pick(i, 5), pick(i / (k * l), 5 + (i / (k * k * l * l)) as u32)],
                mode: (i % 6) as u8,
                limits: None,
            })
        },
        judge,
    );
    let sizes = dom::list_sizes(run.thorough);
    let n = sizes.len() as u64;
    run.family(
        "long-lists",
        n * dom::LONG_LISTS,
        |i| Some(dom::long_list(i % dom::LONG_LISTS, sizes[(i / dom::LONG_LISTS) as usize])),
        judge,
    );
}

/// Compiles, and counts what has been observed.
pub fn look(job: &Job, w: &mut W) -> Obs {
    let obs = observe(job);
    w.steps(job.items.iter().map(|i| i.e.chars().count() as u64 + 1).sum());
    w.state(&obs);
    w.outcome(match &obs.out {
        Ok(_) => "accepted",
        Err(e) => match e.kind {
            'l' => "rejected: located",
            'p' => "rejected: parse",
            'r' => "rejected: resource limit",
            _ => "rejected: other",
        },
    });
    obs
}

/// What the reference makes of the expressions of an accepted compilation, or
/// `None` if it rejects any.
pub fn accepted<'a>(job: &'a Job, obs: &'a Obs) -> Option<Vec<(&'a dom::Item, rm::Parsed, Option<&'a ExprObs>)>> {
    if obs.out.is_err() {
        return None;
    }
    job.items
        .iter()
        .enumerate()
        .map(|(i, it)| {
            let p = reference(&it.e, it.f, MAX_LENGTH).ok()?;
            Some((it, p, obs.trace.expressions.get(i)))
        })
        .collect()
}

pub fn c01(run: &mut Run) {
    let judge = |job: &Job, w: &mut W| -> Verdict {
        let r = dom::compile(job);
        w.steps(job.items.iter().map(|i| i.e.chars().count() as u64 + 1).sum());
        w.outcome(if r.is_ok() { "accepted" } else { "rejected" });
        match r {
            Ok(db) => w.state(&(rescan::verif::database_mode(&db), job.items.len(), job.items.first())),
            Err(e) => w.state(&e.to_string()),
        }
        Ok(())
    };
    singles(run, false, &judge);
    lists(run, &judge);
    // Lists of different lengths.
    run.family(
        "list-lengths",
        5 * 5 * 5 * 6,
        |i| Some((i % 5, i / 5 % 5, i / 25 % 5, i / 125)),
        |&(a, b, c, m), w| {
            let es = ["a", "b|c", "(", "d"];
            let es = &es[..a as usize];
            let r = rescan::compile_multi(
                es,
                &vec![rescan::Flags::CASELESS; b as usize],
                &vec![1; c as usize],
                &dom::mode(m as u8),
            );
            w.steps(1);
            w.state(&r.map_err(|e| e.to_string()).map(|_| ()).err());
            Ok(())
        },
    );
    let big: &[usize] = run.tier(&[100_000, 8_000_001], &[100_000, 1_000_000, 8_000_000, 8_000_001]);
    run.family(
        "very-long-lists",
        big.len() as u64,
        |i| Some(big[i as usize]),
        |&n, w| {
            let es = vec!["ab|c"; n];
            let fs = vec![rescan::Flags::empty(); n];
            let ids: Vec<u32> = (0..n as u32).collect();
            let r = rescan::compile_multi(&es, &fs, &ids, &rescan::Mode::Block);
            w.steps(n as u64);
            w.state(&r.is_ok());
            Ok(())
        },
    );
}

/// The expressions that grow, and long lists, for builds with large stack
/// frames.
/// How deep the groups are nested.
fn nesting(e: &str) -> usize {
    let (mut n, mut max) = (0usize, 0);
    for c in e.chars() {
        match c {
            '(' => n += 1,
            ')' => n = n.saturating_sub(1),
            _ => {}
        }
        max = max.max(n);
    }
    max
}

pub fn c01_deep(run: &mut Run, max: usize) {
    let judge = |job: &Job, w: &mut W| -> Verdict {
        let r = dom::compile(job);
        w.steps(job.items.iter().map(|i| i.e.chars().count() as u64 + 1).sum());
        w.outcome(if r.is_ok() { "accepted" } else { "rejected" });
        w.state(job);
        drop(r);
        Ok(())
    };
    let t = dom::templates(false);
    let sets: &[u16] = &[0, 0x0009];
    let k = sets.len() as u64;
    let name = format!("templates-up-to-{max}-bytes");
    run.family(
        &name,
        t.n * k,
        |i| {
            let e = (t.get)(i / k)?;
            // Long ones only if they are not deeply nested.
            (e.len() <= max || nesting(&e) <= 1000).then(|| single(&e, sets[(i % k) as usize]))
        },
        judge,
    );
    run.family(
        "long-lists",
        4 * dom::LONG_LISTS,
        |i| {
            Some(dom::long_list(
                i % dom::LONG_LISTS,
                [100, 1000, 5000, 10_001][(i / dom::LONG_LISTS) as usize],
            ))
        },
        judge,
    );
}

/// Inputs that are known to fail, see KNOWN_FINDINGS.md.
pub fn c01_known(run: &mut Run) {
    run.family(
        "deep-alternatives",
        1,
        |_| Some(single(&("(|".repeat(5333) + &")".repeat(5333)), 0)),
        |job: &Job, _| {
            let _ = dom::compile(job);
            Ok(())
        },
    );
}

pub fn c02(run: &mut Run) {
    singles(run, false, &|job, w| {
        let obs = look(job, w);
        let it = &job.items[0];
        let expected = reference(&it.e, it.f, MAX_LENGTH);
        match (&obs.out, expected) {
            (Ok(_), Ok(_)) | (Err(_), Err(_)) => Ok(()),
            (Ok(_), Err(e)) => Err(format!("accepted, but should be rejected: {e:?}")),
            (Err(e), Ok(_)) => Err(format!("rejected ({:?}), but is well-formed", e.text)),
        }
    });
}

/// Compares the shapes of two trees; the classes need only contain the
/// expected character.
fn same_shape(expected: &[TreeEvent], observed: &[TreeEvent]) -> Verdict {
    for (k, e) in expected.iter().enumerate() {
        let same = match (e, observed.get(k)) {
            (TreeEvent::Class(c), Some(TreeEvent::Class(o))) => o.contains(&c[0]),
            (e, Some(o)) => e == o,
            (_, None) => false,
        };
        ensure!(
            same,
            "step {k} of the walk over the tree is {:?} instead of {e:?}",
            observed.get(k)
        );
    }
    ensure!(
        expected.len() == observed.len(),
        "the tree has {} steps instead of {}",
        observed.len(),
        expected.len()
    );
    Ok(())
}

fn tree_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    for (it, mut p, o) in accepted(job, &obs).unwrap_or_default() {
        let o = o.ok_or("an accepted expression was not parsed")?;
        p.modes.caseless = false;
        same_shape(&rm::tree_of(&it.e, &p), &o.tree)?;
    }
    Ok(())
}

pub fn c03(run: &mut Run) {
    singles(run, false, &tree_judge);
    lists(run, &tree_judge);
}

fn ordinary(g: &GraphObs) -> Vec<(usize, &Vec<u8>)> {
    let special = [g.start, g.start_ds, g.accept, g.accept_eod];
    g.vertices
        .iter()
        .enumerate()
        .filter(|(i, _)| !special.contains(i))
        .collect()
}

fn class_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    for (it, p, o) in accepted(job, &obs).unwrap_or_default() {
        let Some(o) = o else { continue };
        let chars = rm::chars_of(&it.e, &p);
        let classes: Vec<&Vec<u8>> = o
            .tree
            .iter()
            .filter_map(|e| if let TreeEvent::Class(c) = e { Some(c) } else { None })
            .collect();
        if classes.len() == chars.len() {
            for (k, (c, class)) in chars.iter().zip(classes).enumerate() {
                let expected = rm::class_of(*c, it.f & rm::CASELESS != 0);
                ensure!(
                    expected == **class,
                    "character {k} ({:?}) has the class {class:?} instead of {expected:?} in the tree",
                    *c as char
                );
            }
        }
        for g in &o.graphs {
            let vs = ordinary(g);
            if vs.len() == chars.len() {
                for (k, (c, (_, class))) in chars.iter().zip(vs).enumerate() {
                    let expected = rm::class_of(*c, it.f & rm::CASELESS != 0);
                    ensure!(
                        expected == *class,
                        "character {k} ({:?}) has the class {class:?} instead of {expected:?} in the automaton",
                        *c as char
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn c04(run: &mut Run) {
    run.family(
        "every-character-all-flags-all-modes",
        128 * 2048 * 6,
        |i| {
            let c = (i % 128) as u8 as char;
            let f = (i / 128 % 2048) as u16;
            let mut j = single(
                &match i % 3 {
                    0 => format!("{c}"),
                    1 => format!("x|{c}"),
                    _ => format!("({c}){c}a"),
                },
                f,
            );
            j.mode = (i / 128 / 2048) as u8;
            Some(j)
        },
        class_judge,
    );
    singles(run, true, &class_judge);
    lists(run, &class_judge);
}

fn location_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    let Err(err) = &obs.out else { return Ok(()) };
    // The first expression that is rejected for itself.
    let Some((i, it, reject)) = job
        .items
        .iter()
        .enumerate()
        .find_map(|(i, it)| reference(&it.e, it.f, MAX_LENGTH).err().map(|r| (i, it, r)))
    else {
        return Ok(());
    };
    if err.index.is_some() && err.index != Some(i as u32) {
        return Ok(()); // another expression is blamed, maybe for a conflict
    }
    let (index, kind) = match &reject {
        Reject::Length | Reject::QuietSom => return Ok(()),
        Reject::Verb { name, .. } => {
            ensure!(
                err.reason.contains(name.as_str()),
                "{:?} does not name the verb {name:?}",
                err.text
            );
            (it.e.find("(*").expect("verb") + 2, 'l')
        }
        Reject::NonAscii(i) | Reject::Unmatched(i) => (*i, 'l'),
        Reject::Missing(i) => (*i, 'p'),
    };
    ensure!(
        err.kind == kind,
        "{:?} is of kind {:?} instead of {kind:?} ({reject:?})",
        err.text,
        err.kind
    );
    ensure!(
        rm::mentions(&err.reason, "index", index as u64),
        "{:?} does not contain 'index {index}' ({reject:?})",
        err.text
    );
    Ok(())
}

pub fn c05(run: &mut Run) {
    singles(run, false, &location_judge);
    lists(run, &location_judge);
}

fn mode_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    for (it, p, o) in accepted(job, &obs).unwrap_or_default() {
        let Some(o) = o else { continue };
        for (what, expected, observed) in [
            ("caseless", p.modes.caseless, o.caseless),
            ("dot-all", p.modes.dotall, o.dotall),
            ("multi-line", p.modes.multiline, o.multiline),
            ("UCP", p.modes.ucp, o.ucp),
            ("UTF-8", p.modes.utf8, o.utf8),
            ("free-spacing", false, o.ignore_space),
        ] {
            ensure!(
                expected == observed,
                "{it:?}: {what} mode is {observed} instead of {expected}"
            );
        }
        let n = o
            .tree
            .iter()
            .filter(|e| matches!(e, TreeEvent::Class(_)))
            .count();
        ensure!(
            n == p.chars,
            "{it:?}: {n} literal characters were parsed instead of {}",
            p.chars
        );
    }
    if let [it] = &job.items[..] {
        let (verb, body) = rm::leading_verb(&it.e);
        let rest = &it.e[body..];
        if matches!(verb, rm::Verb::Ucp | rm::Verb::Utf8)
            && rm::leading_verb(rest).1 == 0
            && it.e.len() <= MAX_LENGTH
        {
            let mut alone = job.clone();
            alone.items[0].e = rest.to_string();
            let alone = look(&alone, w);
            ensure!(
                alone.out.is_ok() == obs.out.is_ok(),
                "the result is {:?}, but that of the expression without the verb is {:?}",
                obs.out,
                alone.out
            );
            if let ([a], [o]) = (&alone.trace.expressions[..], &obs.trace.expressions[..]) {
                ensure!(
                    a.tree == o.tree,
                    "parsed to {:?}, but without the verb to {:?}",
                    o.tree,
                    a.tree
                );
                ensure!(
                    a.literals == o.literals && a.graphs == o.graphs,
                    "built {:?} {:?}, but without the verb {:?} {:?}",
                    o.literals,
                    o.graphs,
                    a.literals,
                    a.graphs
                );
            }
        }
    }
    Ok(())
}

pub fn c06(run: &mut Run) {
    run.family(
        "verbs-all-flags",
        8 * 2048 * 6,
        |i| {
            let e = ["(*UCP)a", "(*UTF8)a", "(*UTF)a", "a", "(*UCP)|", "(*)a", "b(*UCP)", "(*UTF8)(A|b)c"][(i % 8) as usize];
            let mut j = single(e, (i / 8 % 2048) as u16);
            j.mode = (i / 8 / 2048) as u8;
            Some(j)
        },
        mode_judge,
    );
    singles(run, false, &mode_judge);
    lists(run, &mode_judge);
    // Modes do not carry over: sequences of every verb and flag.
    let elements: Vec<_> = ["a", "(*UCP)a|b", "(*UTF8)a", "(*UTF)a"]
        .iter()
        .flat_map(|e| [0, 0x0001, 0x0002, 0x0004, 0x0020, 0x0040].map(|f| item(e, f, 3)))
        .collect();
    let n = dom::words(elements.len() as u64, run.tier(3, 4));
    run.family("mode-sequences", n, |i| Some(dom::list(i, &elements)), mode_judge);
}

fn info_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    for (i, (it, o)) in job.items.iter().zip(&obs.trace.expressions).enumerate() {
        let Ok(p) = reference(&it.e, it.f, MAX_LENGTH) else {
            return Err(format!("expression {i} is processed, although it is invalid"));
        };
        let given = |f: rescan::Flags| dom::flags(it.f).contains(f);
        let expected = rescan::verif::InfoObs {
            index: i,
            id: it.id,
            single_match: given(rescan::Flags::SINGLEMATCH),
            utf8: p.modes.utf8,
            prefilter: given(rescan::Flags::PREFILTER),
            quiet: given(rescan::Flags::QUIET),
        };
        let (n, graphs) = (o.infos.len(), o.graphs.len());
        ensure!(
            n == 1 + graphs,
            "{n} notes were taken about expression {i}, for {graphs} automata"
        );
        for info in &o.infos {
            ensure!(
                *info == expected,
                "what is noted about expression {i} is {info:?} instead of {expected:?}"
            );
        }
    }
    Ok(())
}

pub fn c37(run: &mut Run) {
    singles(run, true, &info_judge);
    lists(run, &info_judge);
    let elements: Vec<_> = ["a", "b|c", "(*UTF8)a", "(*UCP)|"]
        .iter()
        .flat_map(|e| [0, 0x0008, 0x0020, 0x0080, 0x0400].map(|f| item(e, f, 3)))
        .collect();
    let n = dom::words(elements.len() as u64, run.tier(3, 4));
    run.family("info-sequences", n, |i| Some(dom::list(i, &elements)), info_judge);
    let elements: Vec<_> = dom::IDS
        .iter()
        .flat_map(|&id| [item("a", 0x0080, id), item("b|c", 0, id)])
        .collect();
    let n = dom::words(elements.len() as u64, run.tier(2, 3));
    run.family("info-ids", n, |i| Some(dom::list(i, &elements)), info_judge);
}

fn graph_judge(job: &Job, w: &mut W) -> Verdict {
    let obs = look(job, w);
    for (it, p, o) in accepted(job, &obs).unwrap_or_default() {
        let Some(o) = o else { continue };
        for g in &o.graphs {
            let mut special = vec![g.start, g.start_ds, g.accept, g.accept_eod];
            special.sort_unstable();
            special.dedup();
            ensure!(special.len() == 4, "the special vertices are not distinct: {g:?}");
            let all: Vec<u8> = (0..=255).collect();
            for v in [g.start, g.start_ds] {
                ensure!(g.vertices[v] == all, "a start vertex accepts only {:?}", g.vertices[v]);
            }
            let chars = rm::chars_of(&it.e, &p);
            let vs = ordinary(g);
            ensure!(
                vs.len() == chars.len(),
                "{} vertices for {} characters",
                vs.len(),
                chars.len()
            );
            for (k, (c, (v, class))) in chars.iter().zip(vs).enumerate() {
                let expected = rm::class_of(*c, p.modes.caseless);
                ensure!(
                    *class == expected,
                    "vertex {v} for character {k} ({:?}) accepts {class:?} instead of {expected:?}",
                    *c as char
                );
            }
            let vacuous = g.edges.iter().any(|&(a, b)| {
                [g.start, g.start_ds].contains(&a) && [g.accept, g.accept_eod].contains(&b)
            });
            ensure!(vacuous == g.vacuous, "vacuous: {} instead of {vacuous}", g.vacuous);
        }
    }
    Ok(())
}

pub fn c26(run: &mut Run) {
    singles(run, true, &graph_judge);
    lists(run, &graph_judge);
    // Graphs with every set of up to three (four) additional edges between the
    // special and two ordinary vertices, and reports.
    run.family(
        "new-automaton",
        8,
        |i| Some(i as usize),
        |&n, w| {
            let g = rescan::verif::graph_query(n, &[], &[]);
            w.steps(1 + n as u64);
            w.state(&g);
            let mut edges = vec![(g.start, g.start_ds), (g.start_ds, g.start_ds), (g.accept, g.accept_eod)];
            edges.sort_unstable();
            ensure!(g.edges == edges, "edges are {:?} instead of {edges:?}", g.edges);
            ensure!(g.vertices.len() == 4 + n, "{} vertices", g.vertices.len());
            ensure!(!g.vacuous && g.reports.is_empty(), "{g:?}");
            Ok(())
        },
    );
    let all: Vec<(usize, usize)> = (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).collect();
    let max = run.tier(3, 4);
    let mut sets: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut last = sets.clone();
    for _ in 0..max {
        let mut grown = Vec::new();
        for s in &last {
            let from = s.last().map_or(0, |e| all.iter().position(|x| x == e).unwrap() + 1);
            for e in &all[from..] {
                let mut s = s.clone();
                s.push(*e);
                grown.push(s);
            }
        }
        sets.extend(grown.iter().cloned());
        last = grown;
    }
    const LABELS: &[&[(usize, u32)]] = &[
        &[],
        &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6)],
        &[(4, 7), (5, 7)],
        &[(4, 1), (4, 2), (5, 2), (5, 3), (0, u32::MAX)],
        &[(1, 0), (3, 9)],
        &[(2, 8)],
    ];
    let k = LABELS.len() as u64;
    run.family(
        "small-graphs",
        sets.len() as u64 * k,
        |i| Some((sets[(i / k) as usize].clone(), LABELS[(i % k) as usize])),
        |(edges, reports), w| {
            let g = rescan::verif::graph_query(2, edges, reports);
            w.steps(edges.len() as u64 + 2);
            w.state(&g);
            let fixed = [(0, 1), (1, 1), (2, 3)];
            let has = |a: usize, b: usize| edges.contains(&(a, b)) || fixed.contains(&(a, b));
            let vacuous = has(0, 2) || has(0, 3) || has(1, 2) || has(1, 3);
            ensure!(g.vacuous == vacuous, "vacuous: {} instead of {vacuous}", g.vacuous);
            let mut expected: Vec<u32> = reports
                .iter()
                .filter(|&&(v, _)| has(v, 2) || has(v, 3))
                .map(|r| r.1)
                .collect();
            expected.sort_unstable();
            expected.dedup();
            ensure!(g.reports == expected, "reports {:?} instead of {expected:?}", g.reports);
            Ok(())
        },
    );
    // Many vertices that lead to accept.
    run.family(
        "large-graphs",
        run.tier(40, 200),
        |i| Some(i as usize),
        |&n, w| {
            let edges: Vec<_> = (0..n).map(|v| (v + 4, 2 + v % 2)).collect();
            let reports: Vec<_> = (0..n).flat_map(|v| [(v + 4, v as u32), (v + 4, 1000 + v as u32 / 2)]).collect();
            let g = rescan::verif::graph_query(n, &edges, &reports);
            w.steps(edges.len() as u64);
            w.state(&g);
            let mut expected: Vec<u32> = reports.iter().map(|r| r.1).collect();
            expected.sort_unstable();
            expected.dedup();
            ensure!(g.reports == expected, "reports {:?} instead of {expected:?}", g.reports);
            ensure!(!g.vacuous, "vacuous");
            Ok(())
        },
    );
    // Many vertices behind the starts and before the accepts, and an edge between
    // them at any place.
    let sizes: &[usize] = run.tier(
        &[0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 4097],
        &[0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 4097, 16_000, 65_537],
    );
    let n = sizes.len() as u64;
    run.family(
        "fans",
        n * 5 * 3 * 4 * 2,
        |i| {
            let size = sizes[(i % n) as usize];
            let i = i / n;
            let vacuous = [None, Some((0, 2)), Some((0, 3)), Some((1, 2)), Some((1, 3))][(i % 5) as usize];
            let (place, kind, twice) = (i / 5 % 3, i / 15 % 4, i / 60 == 1);
            let mut edges: Vec<(usize, usize)> = Vec::new();
            for v in 0..size {
                // To and from every vertex, or some of them.
                if kind < 2 || v % 3 != 0 {
                    edges.push((v * kind as usize % 2, v + 4));
                }
                if kind % 2 == 0 || v % 3 == 1 {
                    edges.push((v + 4, 2 + v % 2));
                }
                if v > 0 {
                    edges.push((v + 3, v + 4));
                }
            }
            if let Some(e) = vacuous {
                let at = [0, edges.len() / 2, edges.len()][place as usize];
                edges.insert(at, e);
                if twice {
                    edges.push(e);
                }
            } else if place > 0 || twice {
                return None;
            }
            Some((size, edges, vacuous.is_some()))
        },
        |(n, edges, vacuous), w| {
            let reports: Vec<_> = (0..*n).map(|v| (v + 4, (v * 7 % 5003) as u32)).collect();
            let g = rescan::verif::graph_query(*n, edges, &reports);
            w.steps(edges.len() as u64);
            w.state(&g);
            let mut before = vec![false; n + 4];
            edges.iter().filter(|e| e.1 == 2 || e.1 == 3).for_each(|e| before[e.0] = true);
            let mut expected: Vec<u32> = reports.iter().filter(|r| before[r.0]).map(|r| r.1).collect();
            expected.sort_unstable();
            expected.dedup();
            ensure!(g.reports == expected, "reports {:?} instead of {expected:?}", g.reports);
            ensure!(g.vacuous == *vacuous, "vacuous: {}", g.vacuous);
            Ok(())
        },
    );
}
