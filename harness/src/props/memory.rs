//! The memory that compiling and scanning take.

use super::expr::{lists, singles};
use crate::alloc;
use crate::dom::{self, item, Job};
use crate::engine::{Run, Verdict, W};
use crate::ensure;
use crate::work;
use rescan::verif;

const BASE: i64 = 64 << 10;
/// The most bytes at a time, for each byte of the expressions and each expression.
const PEAK: i64 = 2048;
/// The most bytes altogether, for each byte of the expressions.
const TOTAL_BYTE: i64 = 4096;
/// The most bytes altogether, for each expression.
const TOTAL_EXPRESSION: i64 = 8192;
/// The most bytes that scanning allocates.
const SCAN: i64 = 4096;

fn size(job: &Job) -> (i64, i64) {
    (job.items.len() as i64, job.items.iter().map(|i| i.e.len() as i64).sum())
}

/// Compiles, checks what is allocated, and drops the result; returns how much
/// is left.
fn compile(job: &Job, w: &mut W) -> Result<i64, String> {
    let (n, bytes) = size(job);
    alloc::start();
    let r = dom::compile(job);
    let alloc::Counts { peak, total, .. } = alloc::counts();
    let accepted = r.is_ok();
    drop(r);
    let left = alloc::counts().live;
    w.steps((n + bytes) as u64);
    w.outcome(if accepted { "accepted" } else { "rejected" });
    w.state(&(peak, total, accepted));
    ensure!(
        peak <= BASE + PEAK * (bytes + n),
        "{n} expressions of {bytes} bytes altogether take {peak} bytes of memory"
    );
    ensure!(
        total <= BASE + TOTAL_BYTE * bytes + TOTAL_EXPRESSION * n,
        "{n} expressions of {bytes} bytes altogether make for allocations of {total} bytes altogether"
    );
    Ok(left)
}

pub fn c32(run: &mut Run) {
    let judge = |job: &Job, w: &mut W| -> Verdict {
        compile(job, w)?;
        // What is kept for later is there by now, or soon.
        let mut left = compile(job, w)?;
        for _ in 0..3 {
            if left > 0 {
                left = compile(job, w)?;
            }
        }
        ensure!(left <= 0, "compiled once more, {left} bytes remain allocated");
        Ok(())
    };
    singles(run, false, &judge);
    lists(run, &judge);
    // Different expressions, again and again.
    let k = 12;
    run.family(
        "repetitions",
        k * 6,
        |i| Some((i % k, (i / k) as u8)),
        |&(kind, mode), w| {
            let mut left = 0;
            for i in 0..if kind < 6 { 20_000 } else { 4000 } {
                left += compile(&one_of_many(kind, mode, i), w)?;
                ensure!(left <= 1 << 20, "after {} compilations, {left} bytes remain allocated", i + 1);
            }
            Ok(())
        },
    );
    // Compilations in a row.
    let es = ["abc", "(a|b", "a|b", "", "é", "((x))", "(*UTF8)q|", "(*X)", "a)"];
    let k = es.len() as u64;
    let len = run.tier(4, 6);
    run.family(
        "histories",
        dom::words(k, len),
        |i| Some(dom::word(i, k)),
        |h, w| {
            let jobs: Vec<Job> = h.iter().map(|&x| dom::single(es[x as usize], x as u16 & 9)).collect();
            for job in &jobs {
                drop(dom::compile(job));
            }
            alloc::start();
            let all: Vec<_> = jobs.iter().map(dom::compile).collect();
            let total = alloc::counts().total;
            drop(all);
            let left = alloc::counts().live;
            w.steps(h.len() as u64);
            w.state(&(h.len(), total));
            ensure!(left <= 0, "compiled once more, {left} bytes remain allocated");
            Ok(())
        },
    );
    // Scanning.
    let sizes: Vec<usize> = (0..=run.tier(300, 5000)).chain((9..=24).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1])).collect();
    let jobs: Vec<Job> = (0..6)
        .map(|mode| Job {
            items: match mode % 3 {
                0 => vec![item("abc", 0, 1)],
                1 => vec![item("a|b", 0, 1), item("x", 1, 2)],
                _ => vec![item("", 0, 0), item("ab", 0x0400, 7), item("(*UCP)A(|b)", 3, 9)],
            },
            mode,
            limits: None,
        })
        .collect();
    let m = jobs.len() as u64;
    run.family(
        "scans",
        m * sizes.len() as u64,
        |i| Some((i % m, sizes[(i / m) as usize])),
        |&(j, size), w| {
            let Ok(db) = dom::compile(&jobs[j as usize]) else {
                return Ok(());
            };
            let data: Vec<u8> = (0..size).map(|i| b"abcxAB"[i % 6]).collect();
            let mut scratch = verif::new_scratch();
            let _ = rescan::scan(&db, &data, &mut scratch);
            alloc::start();
            for _ in 0..3 {
                drop(rescan::scan(&db, &data, &mut scratch));
            }
            let c = alloc::counts();
            w.steps(3);
            w.state(&(j, c.total));
            ensure!(c.total <= 3 * SCAN, "three scans of {size} bytes make for allocations of {} bytes altogether", c.total);
            ensure!(c.live <= 0, "after three scans, {} bytes remain allocated", c.live);
            Ok(())
        },
    );
}

/// Jobs that all differ.
fn one_of_many(kind: u64, mode: u8, i: usize) -> Job {
    let name = dom::numbered(i);
    let pad = "xyZ".repeat(60);
    let mut job = match kind % 6 {
        0 => dom::single(&format!("{name}{pad}"), 0),
        1 => dom::single(&format!("{name}|({pad})"), 1),
        2 => dom::single(&format!("{pad}({name}"), 0),
        3 => dom::single(&format!("{name}{pad}é"), 8),
        4 => dom::single(&format!("(*{name}{pad})a"), 0),
        _ => dom::single(&format!("(*UTF8){name}){pad}"), 0),
    };
    job.mode = mode;
    if kind >= 6 {
        let mut first: Vec<_> = (0..5).map(|k| item(&format!("{name}{k}{pad}"), 8, i as u32)).collect();
        first.append(&mut job.items);
        job.items = first;
    }
    job
}

const WORK: i64 = 20_000;
/// The most steps, for each byte of the expressions or of the data.
const WORK_BYTE: i64 = 1000;
/// The most steps, for each expression.
const WORK_EXPRESSION: i64 = 2000;

/// Compiles, and checks how many steps that and dropping the result take.
fn work(job: &Job, w: &mut W) -> Verdict {
    let (n, bytes) = size(job);
    let mut took = 0;
    let mut accepted = false;
    // Should it take too long, then not only because it is the first time.
    for _ in 0..2 {
        let before = work::steps();
        let r = dom::compile(job);
        accepted = r.is_ok();
        drop(r);
        took = work::steps() - before;
        if took <= WORK + WORK_BYTE * bytes + WORK_EXPRESSION * n {
            break;
        }
    }
    w.steps(took as u64);
    w.outcome(if accepted { "accepted" } else { "rejected" });
    w.state(&(took, accepted));
    ensure!(
        took <= WORK + WORK_BYTE * bytes + WORK_EXPRESSION * n,
        "{n} expressions of {bytes} bytes altogether take {took} steps"
    );
    Ok(())
}

pub fn c33(run: &mut Run) {
    singles(run, false, &work);
    lists(run, &work);
    let sizes: Vec<usize> = run.tier(vec![100_000, 300_000], vec![100_000, 300_000, 1_000_000, 3_000_000]);
    run.family(
        "huge-lists",
        sizes.len() as u64 * dom::LONG_LISTS,
        |i| Some(dom::long_list(i % dom::LONG_LISTS, sizes[(i / dom::LONG_LISTS) as usize])),
        work,
    );
    // Different expressions, again and again.
    run.family(
        "repetitions",
        6 * 6,
        |i| Some((i % 6, (i / 6) as u8)),
        |&(kind, mode), w| {
            for i in 0..30_000 {
                let mut job = dom::single(
                    &[("", ""), ("", "|"), ("(", ""), ("", "é"), ("(*", ")"), ("(*UCP)", "")].map(|(a, b)| format!("{a}{}{b}", dom::numbered(i)))[kind as usize],
                    (i % 2) as u16,
                );
                job.mode = mode;
                job.items[0].id = i as u32;
                work(&job, w)?;
            }
            Ok(())
        },
    );
    let sizes: Vec<usize> = (0..=run.tier(300, 5000)).chain((9..=24).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1])).collect();
    run.family(
        "scans",
        6 * sizes.len() as u64,
        |i| Some(((i % 6) as u8, sizes[(i / 6) as usize])),
        |&(mode, size), w| {
            let mut job = dom::list(7, &dom::elements());
            job.mode = mode;
            let Ok(db) = dom::compile(&job) else {
                return Ok(());
            };
            let data: Vec<u8> = (0..size).map(|i| b"abcxAB"[i % 6]).collect();
            let mut scratch = verif::new_scratch();
            drop(rescan::scan(&db, &data, &mut scratch));
            let before = work::steps();
            drop(rescan::scan(&db, &data, &mut scratch));
            let took = work::steps() - before;
            w.steps(took as u64);
            w.state(&(mode, took));
            ensure!(took <= WORK + WORK_BYTE * size as i64, "scanning {size} bytes takes {took} steps");
            Ok(())
        },
    );
}
