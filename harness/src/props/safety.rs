//! Memory safety: what is explored with a monitor of the memory accesses, which
//! ends the process at the first invalid one. The verdicts of the judges are of
//! no interest here.

use super::{api, batch, class, expr, parts};
use crate::dom::{self, item, Job};
use crate::engine::{Run, Verdict, W};
use rescan::verif::{self, AddLiteral, Class, Limits, Lit, SmallWriteGraph};
use std::sync::{Arc, Barrier};

/// The domains of the other properties, each family up to a limit.
pub fn c31(run: &mut Run) {
    let limit = run.limit.min(run.tier(3_000, 60_000));
    run.limit = limit;
    small(run);
    for p in [
        expr::c06, expr::c26, batch::c07, batch::c08, batch::c09, batch::c10, parts::c11, parts::c13, parts::c14, api::c15, class::c17,
        class::c18, class::c19, class::c20, class::c21, parts::c22, parts::c24, class::c25, parts::c27, parts::c28, parts::c30,
    ] {
        p(run);
    }
}

/// Small domains, for an interpreter.
pub fn c31_interpreted(run: &mut Run) {
    small(run);
}

fn scan(d: &rescan::Database, data: &[u8]) -> bool {
    rescan::scan(d, data, &mut verif::new_scratch()).is_ok()
}

const SYMBOLS: &[&str] = &["a", "K", "(", ")", "|", "é"];

fn look(job: &Job, w: &mut W) -> Verdict {
    w.steps(job.items.iter().map(|i| i.e.len() as u64 + 1).sum());
    match dom::compile(job) {
        Ok(db) => {
            w.outcome("accepted");
            w.state(&(job.items.len(), job.mode, scan(&db, b"ab")));
        }
        Err(e) => {
            w.outcome("rejected");
            w.state(&e.to_string());
        }
    }
    Ok(())
}

fn small(run: &mut Run) {
    // Two compilations at the same time. They come first, so that one of them is
    // the first of the process.
    run.family(
        "threads",
        6 * 6 * 2,
        |i| Some((i % 6, (i + i / 6) % 6, i / 36, i)),
        |&(a, b, m, n), w| {
            let job = move |i: u64| Job {
                items: vec![
                    item(["ab", "a|b", ")", "", "((x))", "(*UTF8)q"][i as usize], 0x0009, 1),
                    // Longer than ever before.
                    item(&"xy".repeat(3 + n as usize / 2), (i % 2) as u16 * 8, 1),
                ],
                mode: m as u8,
                limits: None,
            };
            let barrier = Arc::new(Barrier::new(2));
            let threads = [a, b].map(|i| {
                let barrier = barrier.clone();
                std::thread::spawn(move || {
                    barrier.wait();
                    dom::compile(&job(i)).map(drop).map_err(|e| e.to_string()).err()
                })
            });
            for t in threads {
                if let Ok(h) = t.join() {
                    w.state(&h);
                }
            }
            w.steps(4);
            Ok(())
        },
    );
    let sets: &[u16] = &[0, 0x0009, 0x0100];
    let k = sets.len() as u64;
    let s = dom::all_strings("", SYMBOLS, run.tier(3, 4));
    run.family(
        "expressions",
        s.n * k,
        |i| {
            let mut j = dom::single(&(s.get)(i / k)?, sets[(i % k) as usize]);
            j.mode = (i % 6) as u8;
            Some(j)
        },
        look,
    );
    run.family(
        "verbs",
        8 * 4,
        |i| {
            let e = ["(*UCP)a", "(*UTF8)b|c", "(*UTF)(d)", "(*X)", "(*)e", "(*UTF8)é", "(*UCP)f)", "(*UTF8"][(i % 8) as usize];
            Some(dom::single(e, [0, 1, 0x0500, 8][(i / 8) as usize]))
        },
        look,
    );
    let elements = vec![
        item("ab", 0, 1),
        item("aB", 0x0009, 1),
        item("a|b", 0x0008, 2),
        item("(x)y", 0x0100, 2),
        item(")", 0, 3),
        item("", 0x0400, 1),
    ];
    run.family(
        "lists",
        dom::words(elements.len() as u64, run.tier(3, 4)),
        |i| {
            let mut j = dom::list(i, &elements);
            if i % 3 == 1 {
                j.limits = Some(Limits {
                    report_count: (i % 4) as usize,
                    shortcut_literals: i % 2 == 0,
                    ..Limits::default()
                });
            }
            Some(j)
        },
        look,
    );
    // Classes, each in memory of its own.
    run.family(
        "boxed-classes",
        run.tier(24, 120),
        |i| {
            let b = |k: u64| (i * 11 + k * 67) as u8;
            Some(if i % 3 == 0 { vec![255, b(1)] } else { vec![b(0), b(1), b(2), 192 + (i / 3) as u8 % 64] })
        },
        |members, w| {
            let mut c = Box::new(Class::from_bytes(members));
            let mut v = vec![0; 32].into_boxed_slice();
            c.fill_bitvector(&mut v);
            let mut seen = vec![c.find_first(), c.find_last()];
            for &b in members.iter().chain(&[0, 63, 64, 191, 192, 254, 255]) {
                c.set(b ^ 1);
                c.flip(b);
                seen.extend([c.find_next(b), c.find_nth(b), c.find_nth(b % 4)]);
                let _ = crate::engine::guard(|| c.set_range(b & 0xf0, b));
            }
            w.steps(members.len() as u64 + 40);
            w.state(&(seen, v, c.to_string(), c.is_bit5_insensitive()));
            Ok(())
        },
    );
    // Databases that are dropped before and after others are made, and scanned
    // in between.
    run.family(
        "databases",
        6 * 6 * 6,
        |i| Some([i % 6, i / 6 % 6, i / 36]),
        |&[a, b, c], w| {
            let db = |i: u64| {
                let e = ["ab", "a|b", "", "((x))", "K", "(*UTF8)q"][i as usize];
                rescan::compile(e, dom::flags(i as u16), &dom::mode(i as u8))
            };
            let x = db(a);
            let y = db(b);
            for d in [&x, &y].into_iter().flatten() {
                w.state(&scan(d, b"abK"));
            }
            drop(x);
            let z = db(c);
            for d in [&z, &y].into_iter().flatten() {
                w.state(&scan(d, b""));
            }
            w.steps(7);
            Ok(())
        },
    );
    // Automata for the small-write builder.
    let edges: Vec<(usize, usize)> = (0..5).flat_map(|a| (0..5).map(move |b| (a, b))).collect();
    let graphs = parts::edge_sets(&edges, run.tier(1, 2));
    run.family(
        "automata",
        graphs.len() as u64 * 8,
        |i| {
            let v = i % 8;
            let lit: Lit = vec![(b'a', false), (b'B', v % 2 == 1)];
            Some((
                vec![AddLiteral { lit, report: 0 }],
                SmallWriteGraph {
                    num_vertices: 1,
                    edges: [graphs[(i / 8) as usize].clone(), vec![(4, 2)]].concat(),
                    reports: vec![(4, 0), (4, 1)],
                    som: v / 2 % 2 == 1,
                    min_lengths: vec![0, v / 4],
                },
            ))
        },
        |(ops, g), w| {
            let r = verif::small_write_graph(1, &Limits::default(), ops, g);
            w.steps(2);
            w.state(&r);
            Ok(())
        },
    );
}
