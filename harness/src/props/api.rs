//! Databases and scans.

use super::expr::{lists, singles};
use crate::dom::{self, item, Job};
use crate::engine::{Run, Verdict, W};
use crate::ensure;
use rescan::{verif, Database};

fn kind(mode: u8) -> char {
    match mode {
        0 => 'b',
        1 => 'v',
        _ => 's',
    }
}

fn precision(mode: u8) -> usize {
    match mode {
        1 | 3 => 8,
        4 => 4,
        5 => 2,
        _ => 0,
    }
}

const SYMBOLS: &[u8] = &[b'a', b'B', 0, 0xff];

/// Data to be scanned, the `i`-th of `DATA`.
fn data(i: u64) -> Vec<u8> {
    let words = dom::words(SYMBOLS.len() as u64, 4);
    if i < words {
        return dom::word(i, 4).into_iter().map(|k| SYMBOLS[k as usize]).collect();
    }
    let i = (i - words) as usize;
    if i < 256 {
        return vec![i as u8; 3];
    }
    const SIZES: &[usize] = &[
        5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 65_535, 65_536, 65_537,
    ];
    let n = SIZES[i - 256];
    (0..n).map(|k| (k * 7 + k / 256) as u8).collect()
}

fn data_count() -> u64 {
    dom::words(SYMBOLS.len() as u64, 4) + 256 + 22
}

/// Scans, and checks that nothing has changed.
fn scan(db: &Database, scratch: &mut rescan::Scratch, data: &[u8], mode: u8, w: &mut W) -> Verdict {
    let copy = data.to_vec();
    let r = rescan::scan(db, data, scratch);
    w.steps(1);
    ensure!(r.is_ok(), "scanning {} bytes fails", data.len());
    ensure!(copy == data, "the scanned data has changed");
    let k = verif::database_mode(db);
    ensure!(k == kind(mode), "after a scan, the kind of the database is {k:?}");
    Ok(())
}

fn compile(job: &Job, w: &mut W) -> Result<Option<Database>, String> {
    let p = verif::som_precision(&dom::mode(job.mode));
    ensure!(
        p == precision(job.mode),
        "the precision of mode {} is {p} bytes instead of {}",
        job.mode,
        precision(job.mode)
    );
    let Ok(db) = dom::compile(job) else {
        w.outcome("rejected");
        return Ok(None);
    };
    w.steps(1);
    w.outcome(match job.mode {
        0 => "block",
        1 => "vectored",
        _ => "streaming",
    });
    let k = verif::database_mode(&db);
    ensure!(
        k == kind(job.mode),
        "the kind of the database is {k:?} instead of {:?}",
        kind(job.mode)
    );
    w.state(&(k, p, &job.items));
    Ok(Some(db))
}

pub fn c15(run: &mut Run) {
    let some: Vec<Vec<u8>> = (0..data_count()).step_by(41).map(data).collect();
    let judge = |job: &Job, w: &mut W| -> Verdict {
        let Some(db) = compile(job, w)? else { return Ok(()) };
        let mut scratch = verif::new_scratch();
        for d in some.iter().take(6) {
            scan(&db, &mut scratch, d, job.mode, w)?;
        }
        if let Some(it) = job.items.last() {
            scan(&db, &mut scratch, it.e.as_bytes(), job.mode, w)?;
        }
        Ok(())
    };
    singles(run, false, &judge);
    lists(run, &judge);
    // All data, with all modes.
    let es: &[(&str, u16)] = &[
        ("abc", 0),
        ("a", 0x0001),
        ("a|B", 0),
        ("", 0x0010),
        ("(a(b)|)c", 0x0109),
        ("(*UTF8)xyz", 0x0400),
        ("aB", 0x06ff),
    ];
    let (n, m) = (es.len() as u64, u64::from(dom::MODES));
    run.family(
        "all-data",
        n * m * data_count(),
        |i| {
            let (e, f) = es[(i % n) as usize];
            let mut job = dom::single(e, f);
            job.mode = (i / n % m) as u8;
            Some((job, data(i / n / m)))
        },
        |(job, d), w| {
            let Some(db) = compile(job, w)? else {
                return Ok(());
            };
            let mut scratch = verif::new_scratch();
            for _ in 0..3 {
                scan(&db, &mut scratch, d, job.mode, w)?;
            }
            Ok(())
        },
    );
    run.family(
        "two-bytes",
        n * m * 65_536,
        |i| {
            let mut job = dom::single(es[(i % n) as usize].0, es[(i % n) as usize].1);
            job.mode = (i / n % m) as u8;
            Some((job, [(i / n / m) as u8, (i / n / m >> 8) as u8]))
        },
        |(job, d), w| {
            let Some(db) = compile(job, w)? else {
                return Ok(());
            };
            scan(&db, &mut verif::new_scratch(), d, job.mode, w)
        },
    );
    // Data at every alignment.
    const LENGTHS: &[usize] = &[0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 1000];
    run.family(
        "alignments",
        m * 64 * LENGTHS.len() as u64,
        |i| {
            let mut job = dom::single(es[(i % n) as usize].0, 0);
            job.mode = (i % m) as u8;
            Some((job, (i / m % 64) as usize, LENGTHS[(i / m / 64) as usize]))
        },
        |(job, offset, length), w| {
            let Some(db) = compile(job, w)? else {
                return Ok(());
            };
            #[repr(align(64))]
            struct Buffer([u8; 1100]);
            let mut b = Buffer([b'a'; 1100]);
            for (i, x) in b.0.iter_mut().enumerate().skip(500) {
                *x = i as u8;
            }
            scan(&db, &mut verif::new_scratch(), &b.0[*offset..offset + length], job.mode, w)
        },
    );
    // Large data. The memory of zeros is not actually used.
    let sizes: Vec<usize> = (17..=run.tier(27, 30))
        .flat_map(|b| [(1_usize << b) - 1, 1 << b, (1 << b) + 1])
        .collect();
    let large = |job: &Job, sizes: &[usize], w: &mut W| -> Verdict {
        let Some(db) = compile(job, w)? else {
            return Ok(());
        };
        for &size in sizes {
            let d = vec![0; size];
            let r = rescan::scan(&db, &d, &mut verif::new_scratch());
            w.steps(1);
            ensure!(r.is_ok(), "scanning {size} bytes fails");
            let k = verif::database_mode(&db);
            ensure!(k == kind(job.mode), "after a scan, the kind of the database is {k:?}");
        }
        Ok(())
    };
    run.family(
        "large-data",
        m * sizes.len() as u64,
        |i| {
            let mut job = dom::single(es[(i / m % n) as usize].0, 0);
            job.mode = (i % m) as u8;
            Some((job, sizes[(i / m) as usize]))
        },
        |(job, size), w| large(job, &[*size], w),
    );
    let huge = [1 << 31, 1 << 32, (1 << 32) + 1];
    run.family("huge-data", 1, |_| Some(dom::single("abc", 0)), |job, w| large(job, &huge, w));
    // The same database and data, again and again.
    run.family(
        "repetitions",
        m,
        |i| {
            let mut job = dom::single("abc", 0);
            job.mode = i as u8;
            Some(job)
        },
        |job, w| {
            let Some(db) = compile(job, w)? else {
                return Ok(());
            };
            let mut scratch = verif::new_scratch();
            for _ in 0..70_000 {
                scan(&db, &mut scratch, b"xabcabc", job.mode, w)?;
            }
            Ok(())
        },
    );
    // Histories of scans of several databases, which share a scratch space.
    let len = run.tier(4, 5);
    let jobs: Vec<Job> = (0..6)
        .map(|mode| Job {
            items: match mode % 3 {
                0 => vec![item("abc", 0, 1)],
                1 => vec![item("a|b", 0, 1), item("x", 1, 2)],
                _ => vec![item("", 0, 0), item("ab", 0x0400, 7), item("(*UCP)A(|b)", 3, 9)],
            },
            mode,
            limits: None,
        })
        .collect();
    let ds: &[&[u8]] = &[b"", b"abc", b"\x00\xffab|"];
    let k = (jobs.len() * ds.len()) as u64;
    run.family(
        "scan-histories",
        dom::words(k, len),
        |i| Some(dom::word(i, k)),
        |h, w| {
            let mut dbs: Vec<Option<Database>> = (0..6).map(|_| None).collect();
            let mut scratch = verif::new_scratch();
            for &x in h {
                let j = (x % 6) as usize;
                if dbs[j].is_none() {
                    dbs[j] = compile(&jobs[j], w)?;
                    ensure!(dbs[j].is_some(), "the expressions of mode {j} are rejected");
                }
                let db = dbs[j].as_ref().expect("compiled");
                scan(db, &mut scratch, ds[(x / 6) as usize], j as u8, w)?;
                // The others are not affected.
                for (o, db) in dbs.iter().enumerate() {
                    if let Some(db) = db {
                        let kk = verif::database_mode(db);
                        ensure!(kk == kind(o as u8), "scanning changes the kind of another database to {kk:?}");
                    }
                }
            }
            Ok(())
        },
    );
}
