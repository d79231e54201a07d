//! Properties of character classes.

use super::expr::singles;
use crate::dom::{self, Job};
use crate::engine::{guard, hash_of, Run, Verdict, W};
use crate::ensure;
use rescan::verif::{self, Class, TreeEvent};
use std::cmp::Ordering;
use std::fmt;

/// A set of bytes.
#[derive(Clone, Copy, Default, Eq, Hash, PartialEq)]
pub struct S([u64; 4]);

impl S {
    fn has(self, b: u8) -> bool {
        self.0[usize::from(b) / 64] >> (b % 64) & 1 == 1
    }
    fn put(&mut self, b: u8, on: bool) {
        let w = &mut self.0[usize::from(b) / 64];
        *w = *w & !(1 << (b % 64)) | u64::from(on) << (b % 64);
    }
    fn of(bytes: &[u8]) -> S {
        let mut s = S::default();
        for &b in bytes {
            s.put(b, true);
        }
        s
    }
    fn range(from: u8, to: u8) -> S {
        let mut s = S::default();
        for b in from..=to {
            s.put(b, true);
        }
        s
    }
    fn not(self) -> S {
        S([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }
    fn zip(self, o: S, f: impl Fn(u64, u64) -> u64) -> S {
        S([
            f(self.0[0], o.0[0]),
            f(self.0[1], o.0[1]),
            f(self.0[2], o.0[2]),
            f(self.0[3], o.0[3]),
        ])
    }
    fn or(self, o: S) -> S {
        self.zip(o, |a, b| a | b)
    }
    fn and(self, o: S) -> S {
        self.zip(o, |a, b| a & b)
    }
    fn xor(self, o: S) -> S {
        self.zip(o, |a, b| a ^ b)
    }
    fn members(self) -> Vec<u8> {
        (0..=255).filter(|&b| self.has(b)).collect()
    }
    fn flip_if(self, c: bool) -> S {
        if c {
            self.not()
        } else {
            self
        }
    }
    /// The class with these members.
    pub fn class(self) -> Class {
        Class::from_bytes(&self.members())
    }
}

impl fmt::Debug for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let m = self.members();
        f.write_str("{")?;
        let mut i = 0;
        while i < m.len() {
            let mut j = i;
            while j + 1 < m.len() && m[j + 1] == m[j] + 1 {
                j += 1;
            }
            if i > 0 {
                f.write_str(" ")?;
            }
            if j > i {
                write!(f, "{}-{}", m[i], m[j])?;
            } else {
                write!(f, "{}", m[i])?;
            }
            i = j + 1;
        }
        f.write_str("}")
    }
}

/// The members of a class.
fn read(c: &Class) -> S {
    let mut s = S::default();
    for (i, w) in s.0.iter_mut().enumerate() {
        for b in 0..64 {
            *w |= u64::from(c.test((i * 64 + b) as u8)) << b;
        }
    }
    s
}

// The domains of sets.

fn choose(n: u64, k: u64) -> u64 {
    let mut r: u128 = 1;
    for i in 0..k {
        r = r * u128::from(n - i) / u128::from(i + 1);
    }
    r as u64
}

/// The `i`-th subset of `n` elements of size `k`.
fn subset(mut i: u64, n: u64, k: u64) -> Vec<u64> {
    let mut res = Vec::new();
    let mut k = k;
    let mut x = 0;
    while k > 0 {
        let c = choose(n - x - 1, k - 1);
        if i < c {
            res.push(x);
            k -= 1;
        } else {
            i -= c;
        }
        x += 1;
    }
    res
}

fn tri(mut i: u64) -> (u8, u8) {
    // All from <= to.
    for from in 0..256_u64 {
        if i < 256 - from {
            return (from as u8, (from + i) as u8);
        }
        i -= 256 - from;
    }
    unreachable!()
}

const RANGES: u64 = 256 * 257 / 2;

/// Positions at which something can change.
const EDGES: &[u8] = &[
    0, 1, 7, 8, 9, 13, 31, 32, 33, 47, 48, 57, 58, 62, 63, 64, 65, 90, 91, 94, 95, 96, 97, 122, 123, 126, 127, 128, 129, 160, 190,
    191, 192, 193, 223, 224, 225, 253, 254, 255,
];

const LETTERISH: &[u8] = &[
    b'@', b'A', b'B', b'Z', b'[', b'`', b'a', b'b', b'z', b'{', b'!', 0x01, 0xc1, 0xe1, b'0', 0x7f, 0xc0, 0x80,
];

const WORDS: &[u64] = &[
    0,
    !0,
    1,
    1 << 63,
    0x5555_5555_5555_5555,
    0x8000_0000_0000_0001,
    0xffff_ffff,
    !1,
    // For the deeper tier only.
    !(1 << 63),
    0xaaaa_aaaa_aaaa_aaaa,
    1 << 32,
    1 << 31,
    0x0000_ffff_ffff_0000,
    0xff00_ff00_ff00_ff00,
    0xffff_ffff_0000_0000,
    0x0100_0000_0000_0002,
];

struct Dom {
    name: &'static str,
    n: u64,
    get: Box<dyn Fn(u64) -> S + Sync>,
    /// Whether there are too many sets for a judgement of every argument.
    many: bool,
}

fn bytes(v: &[u64]) -> S {
    let mut s = S::default();
    for &b in v {
        s.put(b as u8, true);
    }
    s
}

fn domains(thorough: bool) -> Vec<Dom> {
    fn dom(name: &'static str, n: u64, many: bool, get: impl Fn(u64) -> S + Sync + 'static) -> Dom {
        Dom {
            name,
            n,
            get: Box::new(get),
            many,
        }
    }
    let two = choose(256, 2);
    let three = choose(256, 3);
    let ne = EDGES.len() as u64;
    let nl = LETTERISH.len() as u32;
    let mut v = vec![
        dom("at-most-2-or-at-least-254", 2 * (1 + 256 + two), false, move |i| {
            let (c, i) = (i % 2 == 1, i / 2);
            let s = if i == 0 {
                S::default()
            } else if i <= 256 {
                S::of(&[(i - 1) as u8])
            } else {
                bytes(&subset(i - 257, 256, 2))
            };
            s.flip_if(c)
        }),
        dom("ranges", 2 * RANGES, false, |i| {
            let (a, b) = tri(i / 2);
            S::range(a, b).flip_if(i % 2 == 1)
        }),
        dom("two-ranges", 2 * choose(ne + 1, 4), false, move |i| {
            // a <= b < c <= d
            let v = subset(i / 2, ne + 1, 4);
            let e = |k: u64| u16::from(EDGES[k.min(ne - 1) as usize]);
            let s = S::range(e(v[0]) as u8, (e(v[1]) - 1) as u8).or(S::range(e(v[2]) as u8, e(v[3]) as u8));
            s.flip_if(i % 2 == 1)
        }),
        dom("word-patterns", if thorough { 1 << 16 } else { 1 << 12 }, false, move |i| {
            let (bits, mask) = if thorough { (4, 15) } else { (3, 7) };
            let w = |k: u64| WORDS[(i >> (bits * k) & mask) as usize];
            S([w(0), w(1), w(2), w(3)])
        }),
        dom("letters-and-neighbours", 1 << nl, true, move |i| {
            let mut s = S::default();
            for (k, &b) in LETTERISH.iter().enumerate() {
                s.put(b, i >> k & 1 == 1);
            }
            s
        }),
        dom("letter-ranges", 2 * 24 * 24 * 28, false, |i| {
            // Something like a-z, and one more byte.
            let (c, i) = (i % 2 == 1, i / 2);
            const FROM: [u8; 24] = [
                b'a', b'b', b'y', b'z', b'`', b'A', b'B', b'Y', b'Z', b'@', b'0', b'1', b'/', b'9', 9, 10, 13, 0x20, 0x80, 0xc0,
                0xbf, 0, 0x21, b'_',
            ];
            const ADD: [u8; 28] = [
                b'a', b'A', b'm', b'M', b'z', b'Z', b'@', b'[', b'`', b'{', b'_', b'-', b']', b'^', b'\\', b'.', b'"', b'\'', 0,
                0x20, 0x0b, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0xe1, 0xc1,
            ];
            let (a, b, x) = (FROM[(i % 24) as usize], FROM[(i / 24 % 24) as usize], ADD[(i / 576) as usize]);
            let s = S::range(a.min(b), a.max(b)).or(S::of(&[x]));
            s.flip_if(c)
        }),
        dom("periodic", (1..=32_u64).map(|p| p * p).sum(), false, |mut i| {
            let mut p = 1;
            while i >= p * p {
                i -= p * p;
                p += 1;
            }
            let (from, len) = (i / p, i % p + 1);
            let mut s = S::default();
            for b in 0..256 {
                s.put(b as u8, (b + p - from) % p < len);
            }
            s
        }),
        dom("mnemonics", 32 * (1 + 256 + if thorough { two } else { 40 * 39 / 2 }), false, move |i| {
            let (base, i) = (i % 32, i / 32);
            let mut s = S::default();
            if base & 1 != 0 {
                s = s.or(S::range(b'0', b'9'));
            }
            if base & 2 != 0 {
                s = s.or(S::of(&[9, 10, 11, 12, 13, 32]));
            }
            if base & 4 != 0 {
                s = s
                    .or(S::range(b'a', b'z'))
                    .or(S::range(b'A', b'Z'))
                    .or(S::range(b'0', b'9'))
                    .or(S::of(b"_"));
            }
            if base & 8 != 0 {
                s = s.or(S::range(0x80, 0xff));
            }
            // Change up to two bytes.
            let x = if i == 0 {
                S::default()
            } else if i <= 256 {
                S::of(&[(i - 1) as u8])
            } else if thorough {
                bytes(&subset(i - 257, 256, 2))
            } else {
                let v = subset(i - 257, 40, 2);
                S::of(&[EDGES[v[0] as usize], EDGES[v[1] as usize]])
            };
            s.xor(x).flip_if(base & 16 != 0)
        }),
        dom("punctuation", 2 * (1 << 16), true, |i| {
            const P: [u8; 16] = *b"^-[].\\\"'\t\n\r\x00 \x7f~a";
            let mut s = S::default();
            for (k, &b) in P.iter().enumerate() {
                s.put(b, i >> (k + 1) & 1 == 1);
            }
            s.flip_if(i % 2 == 1)
        }),
        dom("exactly-3", if thorough { 2 * three } else { three }, true, move |i| {
            bytes(&subset(i % three, 256, 3)).flip_if(i >= three)
        }),
        dom("at-most-4-of-40", 2 * choose(ne, 4), true, move |i| {
            let s: Vec<u8> = subset(i / 2, ne, 4).iter().map(|&k| EDGES[k as usize]).collect();
            S::of(&s).flip_if(i % 2 == 1)
        }),
    ];
    let (bits, offsets) = if thorough { (16, 241) } else { (12, 245) };
    v.push(dom("windows", offsets << bits, true, move |i| {
        let (at, pattern) = (i >> bits, i & ((1 << bits) - 1));
        let mut s = S::default();
        for k in 0..bits {
            s.put((at + k) as u8, pattern >> k & 1 == 1);
        }
        s
    }));
    v
}

/// Judges all sets of the domains. `many` tells that the domain is large.
fn sets(run: &mut Run, judge: &(dyn Fn(&S, bool, &mut W) -> Verdict + Sync)) {
    some_sets(run, true, judge);
}

/// Judges the sets of the domains, the large ones or only the others.
pub fn some_sets(run: &mut Run, large: bool, judge: &(dyn Fn(&S, bool, &mut W) -> Verdict + Sync)) {
    for d in domains(run.thorough) {
        if d.many && !large {
            continue;
        }
        run.family(d.name, d.n, |i| Some((d.get)(i)), |s, w| {
            w.state(s);
            judge(s, d.many, w)
        });
    }
}

/// Sets that are combined with each other.
fn operands(thorough: bool) -> Vec<S> {
    let mut v = vec![S::default(), S::default().not()];
    for &e in EDGES {
        v.push(S::of(&[e]));
        v.push(S::of(&[e]).not());
        v.push(S::range(0, e));
        v.push(S::range(e, 255));
    }
    for k in 0..256_u64 {
        let w = |i: u64| WORDS[(k >> (2 * i) & 3) as usize];
        v.push(S([w(0), w(1), w(2), w(3)]));
    }
    for (i, &a) in EDGES.iter().enumerate() {
        for &b in &EDGES[i + 1..] {
            if thorough || (usize::from(a) + usize::from(b)) % 3 == 0 {
                v.push(S::of(&[a, b]));
                v.push(S::range(a, b));
            }
        }
    }
    if thorough {
        for b in 0..=255 {
            v.push(S::of(&[b]));
            v.push(S::of(&[b]).not());
        }
    }
    v
}

// C17

/// An operation on a class.
#[derive(Clone, Copy, Debug)]
enum Op {
    Set(u8),
    Reset(u8),
    Flip(u8),
    Range(u8, u8),
    Bytes(&'static [u8]),
    SetAll,
    ResetAll,
    FlipAll,
    Not,
    And(S),
    Or(S),
    Xor(S),
    AndAssign(S),
    OrAssign(S),
    XorAssign(S),
}

fn apply(c: &mut Class, op: Op) {
    match op {
        Op::Set(b) => c.set(b),
        Op::Reset(b) => c.reset(b),
        Op::Flip(b) => c.flip(b),
        Op::Range(a, b) => c.set_range(a, b),
        Op::Bytes(b) => c.set_bytes(b),
        Op::SetAll => c.set_all(),
        Op::ResetAll => c.reset_all(),
        Op::FlipAll => c.flip_all(),
        Op::Not => *c = c.complement(),
        Op::And(s) => *c = c.and(s.class()),
        Op::Or(s) => *c = c.or(s.class()),
        Op::Xor(s) => *c = c.xor(s.class()),
        Op::AndAssign(s) => c.and_assign(s.class()),
        Op::OrAssign(s) => c.or_assign(s.class()),
        Op::XorAssign(s) => c.xor_assign(s.class()),
    }
}

fn model(s: S, op: Op) -> S {
    let mut r = s;
    match op {
        Op::Set(b) => r.put(b, true),
        Op::Reset(b) => r.put(b, false),
        Op::Flip(b) => r.put(b, !s.has(b)),
        Op::Range(a, b) => r = s.or(S::range(a, b)),
        Op::Bytes(b) => r = s.or(S::of(b)),
        Op::SetAll => r = S::default().not(),
        Op::ResetAll => r = S::default(),
        Op::FlipAll | Op::Not => r = s.not(),
        Op::And(x) | Op::AndAssign(x) => r = s.and(x),
        Op::Or(x) | Op::OrAssign(x) => r = s.or(x),
        Op::Xor(x) | Op::XorAssign(x) => r = s.xor(x),
    }
    r
}

/// The class has exactly the members of the set, and says so.
fn agrees(c: &Class, s: S) -> Verdict {
    let got = read(c);
    ensure!(got == s, "the members are {got:?} instead of {s:?}");
    let n: u32 = s.0.iter().map(|w| w.count_ones()).sum();
    ensure!(c.count() == n, "the size is {} instead of {n}", c.count());
    ensure!(c.none() == (n == 0), "none() is {} with {n} members", c.none());
    ensure!(c.any() == (n > 0), "any() is {} with {n} members", c.any());
    ensure!(c.all() == (n == 256), "all() is {} with {n} members", c.all());
    Ok(())
}

const CELLS: &[(u8, u8)] = &[
    (0, 0),
    (1, 62),
    (63, 63),
    (64, 64),
    (65, 65),
    (66, 126),
    (127, 127),
    (128, 128),
    (129, 190),
    (191, 191),
    (192, 192),
    (193, 253),
    (254, 254),
    (255, 255),
];

fn alphabet() -> Vec<Op> {
    let big = S([0x5555_5555_5555_5555, 0xffff_0000_0000_ffff, 1 << 63, !1]);
    vec![
        Op::Set(0),
        Op::Set(63),
        Op::Set(64),
        Op::Set(200),
        Op::Set(255),
        Op::Reset(0),
        Op::Reset(63),
        Op::Reset(128),
        Op::Reset(200),
        Op::Reset(255),
        Op::Flip(1),
        Op::Flip(64),
        Op::Flip(200),
        Op::Flip(255),
        Op::Range(0, 255),
        Op::Range(0, 63),
        Op::Range(63, 64),
        Op::Range(10, 20),
        Op::Range(100, 230),
        Op::Range(128, 255),
        Op::Range(255, 255),
        Op::Bytes(b""),
        Op::Bytes(b"\x00az\xff\x00"),
        Op::SetAll,
        Op::ResetAll,
        Op::FlipAll,
        Op::Not,
        Op::And(big),
        Op::Or(big),
        Op::Xor(big),
        Op::AndAssign(big.not()),
        Op::OrAssign(S::range(60, 130)),
        Op::XorAssign(S::range(60, 130)),
    ]
}

pub fn c17(run: &mut Run) {
    // Every single operation with every argument, from many states.
    let bases: Vec<S> = operands(run.thorough);
    run.family(
        "single-byte-updates",
        bases.len() as u64 * 256,
        |i| Some((bases[(i / 256) as usize], i as u8)),
        |&(s, b), w| {
            for op in [Op::Set(b), Op::Reset(b), Op::Flip(b)] {
                let mut c = s.class();
                apply(&mut c, op);
                w.steps(1);
                let e = model(s, op);
                w.state(&e);
                agrees(&c, e).map_err(|m| format!("{op:?}: {m}"))?;
            }
            Ok(())
        },
    );
    let some: Vec<S> = if run.thorough {
        bases.clone()
    } else {
        bases.iter().copied().step_by(13).collect()
    };
    run.family(
        "range-updates",
        some.len() as u64 * RANGES,
        |i| Some((some[(i / RANGES) as usize], tri(i % RANGES))),
        |&(s, (a, b)), w| {
            let mut c = s.class();
            c.set_range(a, b);
            w.steps(1);
            let e = s.or(S::range(a, b));
            w.state(&e);
            agrees(&c, e)
        },
    );
    run.family(
        "reversed-ranges",
        3 * (RANGES - 256),
        |i| {
            let k = i % (RANGES - 256);
            let v = subset(k, 256, 2);
            Some((i / (RANGES - 256), v[1] as u8, v[0] as u8))
        },
        |&(k, from, to), w| {
            w.steps(1);
            let mut c = if k == 2 { Class::dot() } else { Class::default() };
            let r = guard(|| {
                if k == 0 {
                    let _ = Class::from_range(from, to);
                } else {
                    c.set_range(from, to);
                }
            });
            ensure!(r.is_err(), "the reversed range is accepted");
            agrees(&c, if k == 2 { S::default().not() } else { S::default() }).map_err(|e| format!("after the panic, {e}"))
        },
    );
    // Comparing.
    let some: Vec<S> = operands(false);
    let m = some.len() as u64;
    run.family(
        "comparisons",
        m * m,
        |i| Some((some[(i / m) as usize], some[(i % m) as usize])),
        |&(s, t), w| {
            // The second one comes about in another way.
            let (a, mut b) = (s.class(), t.not().class());
            b.flip_all();
            w.steps(4);
            let same = s == t;
            ensure!((a == b) == same, "equality");
            ensure!(!same || hash_of(&a) == hash_of(&b), "equal classes have different hashes");
            let order = a.cmp(&b);
            ensure!(order == b.cmp(&a).reverse(), "the order depends on the side");
            ensure!((order == Ordering::Equal) == same, "the order says {order:?}");
            ensure!(a.partial_cmp(&b) == Some(order), "there are two orders");
            Ok(())
        },
    );
    let few: Vec<S> = some.iter().copied().step_by(run.tier(7, 3)).collect();
    let m = few.len() as u64;
    run.family(
        "triples",
        m * m * m,
        |i| Some([i / m / m, i / m % m, i % m].map(|k| few[k as usize])),
        |t, w| {
            let [a, b, c] = t.map(S::class);
            w.steps(3);
            ensure!(!(a < b && b < c) || a < c, "the order is not transitive");
            Ok(())
        },
    );
    // Every state over the cells, and every operation on their borders.
    let n = CELLS.len() as u32;
    run.family(
        "cells",
        1 << n,
        |i| {
            let mut s = S::default();
            for (k, &(a, b)) in CELLS.iter().enumerate() {
                if i >> k & 1 == 1 {
                    s = s.or(S::range(a, b));
                }
            }
            Some(s)
        },
        |&s, w| {
            w.state(&s);
            let base = s.class();
            agrees(&base, s)?;
            let mut ops = vec![Op::SetAll, Op::ResetAll, Op::FlipAll, Op::Not];
            for (i, &(a, _)) in CELLS.iter().enumerate() {
                ops.extend([Op::Set(a), Op::Reset(a), Op::Flip(a)]);
                for &(_, b) in &CELLS[i..] {
                    ops.push(Op::Range(a, b));
                }
            }
            for op in ops {
                let mut c = base;
                apply(&mut c, op);
                w.steps(1);
                agrees(&c, model(s, op)).map_err(|e| format!("{op:?}: {e}"))?;
            }
            Ok(())
        },
    );
    // Pairs.
    let n = bases.len() as u64;
    run.family(
        "pairs",
        n * n,
        |i| Some((bases[(i / n) as usize], bases[(i % n) as usize])),
        |&(a, b), w| {
            let (ca, cb) = (a.class(), b.class());
            w.steps(7);
            let mut and = ca;
            and.and_assign(cb);
            let mut or = ca;
            or.or_assign(cb);
            let mut xor = ca;
            xor.xor_assign(cb);
            for (what, c, s) in [
                ("&", ca.and(cb), a.and(b)),
                ("|", ca.or(cb), a.or(b)),
                ("^", ca.xor(cb), a.xor(b)),
                ("&=", and, a.and(b)),
                ("|=", or, a.or(b)),
                ("^=", xor, a.xor(b)),
                ("!", ca.complement(), a.not()),
            ] {
                w.state(&s);
                agrees(&c, s).map_err(|e| format!("{what}: {e}"))?;
            }
            ensure!((ca == cb) == (a == b), "equality is {} for {a:?} and {b:?}", ca == cb);
            ensure!((ca != cb) == (a != b), "inequality is {} for {a:?} and {b:?}", ca != cb);
            ensure!(read(&ca) == a && read(&cb) == b, "an operand has changed");
            Ok(())
        },
    );
    // Histories.
    let ops = alphabet();
    let k = ops.len() as u64;
    let len = run.tier(4, 5);
    run.family(
        "histories",
        dom::words(k, len),
        |i| Some(dom::word(i, k)),
        |h, w| {
            let mut c = Class::default();
            let mut s = S::default();
            for &i in h {
                apply(&mut c, ops[i as usize]);
                s = model(s, ops[i as usize]);
            }
            w.steps(h.len() as u64);
            w.state(&s);
            let told = || h.iter().map(|&i| format!("{:?} ", ops[i as usize])).collect::<String>();
            agrees(&c, s).map_err(|e| format!("after {}: {e}", told()))?;
            ensure!(c == s.class(), "after {}: not equal to the class of {s:?}", told());
            Ok(())
        },
    );
    // What is set in one class by different ways is equal.
    sets(run, &|&s, _, w| {
        w.steps(3);
        let c = s.class();
        agrees(&c, s)?;
        let mut d = Class::dot();
        for b in s.not().members() {
            d.reset(b);
        }
        ensure!(c == d, "the class made by removing bytes differs from that made by adding bytes");
        let mut e = Class::default();
        for b in s.members().into_iter().rev() {
            e.flip(b);
        }
        ensure!(c == e, "the class made by flipping bytes differs from that made by adding bytes");
        Ok(())
    });
}

// C18

pub fn c18(run: &mut Run) {
    sets(run, &|s, many, w| {
        let c = s.class();
        // The queries are judged by the members that the class says it has.
        let m = read(&c).members();
        w.steps(2);
        ensure!(
            c.find_first() == m.first().copied(),
            "the first member is {:?} instead of {:?}",
            c.find_first(),
            m.first()
        );
        ensure!(
            c.find_last() == m.last().copied(),
            "the last member is {:?} instead of {:?}",
            c.find_last(),
            m.last()
        );
        let mut k = 0;
        for b in 0..=255_u8 {
            while k < m.len() && m[k] <= b {
                k += 1;
            }
            let got = c.find_next(b);
            ensure!(
                got == m.get(k).copied(),
                "the member after {b} is {got:?} instead of {:?}",
                m.get(k)
            );
        }
        w.steps(256);
        let nth = |n: u8| {
            let got = c.find_nth(n);
            let want = m.get(usize::from(n)).copied();
            ensure!(got == want, "the {n}-th member is {got:?} instead of {want:?}");
            Ok(())
        };
        if many {
            for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 31, 32, 63, 64, 127, 128, 191, 192, 248, 250, 252, 253, 254, 255] {
                nth(n)?;
            }
            w.steps(29);
        } else {
            for n in 0..=255 {
                nth(n)?;
            }
            w.steps(256);
        }
        let text = c.to_string();
        w.steps(1);
        ensure!(
            text.chars().map(|c| c as u32).eq(m.iter().map(|&b| u32::from(b))),
            "the text is {text:?}"
        );
        Ok(())
    });
}

// C19

fn letter(b: u8) -> bool {
    (65..=90).contains(&b) || (97..=122).contains(&b)
}

pub fn c19(run: &mut Run) {
    sets(run, &|s, _, w| {
        let c = s.class();
        let s = read(&c);
        let m = s.members();
        w.steps(5);
        let alphabetic = !m.is_empty() && m.iter().all(|&b| letter(b));
        ensure!(c.is_alphabetic() == alphabetic, "alphabetic: {}", c.is_alphabetic());
        let pair = m.len() == 2 && letter(m[0]) && m[0] | 0x20 == m[1] && m[0] != m[1];
        ensure!(c.is_caseless_char() == pair, "caseless pair: {}", c.is_caseless_char());
        let closed = m.iter().all(|&b| s.has(b ^ 0x20));
        ensure!(
            c.is_bit5_insensitive() == closed,
            "bit-5-insensitive: {}",
            c.is_bit5_insensitive()
        );
        let ascii = m.iter().all(|&b| b < 0x80);
        ensure!(c.is_ascii() == ascii, "ASCII: {}", c.is_ascii());
        let start = m.iter().all(|&b| b >= 0xc0);
        ensure!(c.is_utf8_start() == start, "UTF-8 start: {}", c.is_utf8_start());
        for (is, what) in [
            (alphabetic, "alphabetic"),
            (pair, "caseless pair"),
            (closed, "bit-5-insensitive"),
            (ascii, "ASCII"),
            (start, "UTF-8 start"),
        ] {
            if is {
                w.outcome(what);
            }
        }
        Ok(())
    });
    let relation = |(a, b): &(S, S), w: &mut W| {
        let (ca, cb) = (a.class(), b.class());
        w.steps(2);
        w.state(&(a, b));
        let subset = a.and(b.not()) == S::default();
        ensure!(ca.is_subset_of(&cb) == subset, "subset: {}", ca.is_subset_of(&cb));
        let overlap = a.and(*b) != S::default();
        ensure!(ca.overlaps(&cb) == overlap, "overlaps: {}", ca.overlaps(&cb));
        w.outcome(match (subset, overlap) {
            (true, true) => "subset, overlapping",
            (true, false) => "subset, disjoint",
            (false, true) => "no subset, overlapping",
            (false, false) => "no subset, disjoint",
        });
        Ok(())
    };
    let bases = operands(run.thorough);
    let n = bases.len() as u64;
    run.family(
        "pairs",
        n * n,
        |i| Some((bases[(i / n) as usize], bases[(i % n) as usize])),
        relation,
    );
    // One byte more or less makes the difference.
    run.family(
        "near-pairs",
        n * 256 * 4,
        |i| {
            let s = bases[(i / 1024) as usize];
            let b = i as u8;
            let mut t = s;
            t.put(b, !s.has(b));
            Some(match i / 256 % 4 {
                0 => (s, t),
                1 => (t, s),
                2 => (s.not(), t),
                _ => (t, s.not()),
            })
        },
        relation,
    );
    run.family(
        "one-byte-pairs",
        514 * 514,
        |i| {
            let f = |k: u64| match k {
                0..=255 => S::of(&[k as u8]),
                256..=511 => S::of(&[k as u8]).not(),
                512 => S::default(),
                _ => S::default().not(),
            };
            Some((f(i / 514), f(i % 514)))
        },
        relation,
    );
    run.family("from-byte", 256, |i| Some(i as u8), |&b, w| {
        w.steps(1);
        agrees(&Class::from_char(b), S::of(&[b]))
    });
    run.family("from-range", RANGES, |i| Some(tri(i)), |&(a, b), w| {
        w.steps(1);
        agrees(&Class::from_range(a, b), S::range(a, b))
    });
    const LIST: &[u8] = &[0, 63, 64, b'a', 127, 128, 192, 255];
    let len = run.tier(5, 7);
    run.family(
        "from-list",
        dom::words(8, len),
        |i| Some(dom::word(i, 8).into_iter().map(|k| LIST[k as usize]).collect::<Vec<u8>>()),
        |l, w| {
            w.steps(1);
            agrees(&Class::from_bytes(l), S::of(l))
        },
    );
    // Bytes that follow one another, in any order and repeatedly.
    let len = run.tier(6, 8);
    const STARTS: &[u8] = &[0, 30, 61, b'A', b'x', 126, 190, 251];
    let n = dom::words(5, len);
    run.family(
        "from-dense-list",
        n * STARTS.len() as u64,
        |i| {
            let s = STARTS[(i / n) as usize];
            Some(dom::word(i % n, 5).into_iter().map(|k| s + k as u8).collect::<Vec<u8>>())
        },
        |l, w| {
            w.steps(1);
            agrees(&Class::from_bytes(l), S::of(l))
        },
    );
    // All bytes of a range, with one more or one less.
    run.family(
        "from-long-list",
        RANGES * 4,
        |i| {
            let (a, b) = tri(i / 4);
            let mut l: Vec<u8> = (a..=b).collect();
            match i % 4 {
                0 => {}
                1 => l.reverse(),
                2 => l[0] = b,
                _ => l.extend_from_within(..),
            }
            Some(l)
        },
        |l, w| {
            w.steps(1);
            agrees(&Class::from_bytes(l), S::of(l))
        },
    );
    run.family(
        "from-pair",
        256 * 256,
        |i| Some([(i / 256) as u8, i as u8]),
        |l, w| {
            w.steps(1);
            agrees(&Class::from_bytes(l), S::of(l))
        },
    );
    run.family("dot", 1, Some, |_, w| {
        w.steps(1);
        agrees(&Class::dot(), S::default().not())
    });
}

// C20

pub fn c20(run: &mut Run) {
    run.family("helpers", 256, |i| Some(i as u8), |&b, w| {
        w.steps(5);
        w.state(&b);
        let upper = (65..=90).contains(&b);
        let lower = (97..=122).contains(&b);
        let up = if lower { b - 32 } else { b };
        let low = if upper { b + 32 } else { b };
        ensure!(verif::myisupper(b) == upper, "upper-case: {}", verif::myisupper(b));
        ensure!(verif::myislower(b) == lower, "lower-case: {}", verif::myislower(b));
        ensure!(verif::mytoupper(b) == up, "to upper case: {}", verif::mytoupper(b));
        ensure!(verif::mytolower(b) == low, "to lower case: {}", verif::mytolower(b));
        ensure!(
            verif::ourisalpha(b) == (upper || lower),
            "letter: {}",
            verif::ourisalpha(b)
        );
        Ok(())
    });
    let judge = |s: &S, w: &mut W| {
        let mut c = s.class();
        let s = read(&c);
        let mut want = s;
        for b in 65..=90 {
            let any = s.has(b) || s.has(b + 32);
            want.put(b, any);
            want.put(b + 32, any);
        }
        c.make_caseless();
        w.steps(1);
        w.outcome(if want == s { "unchanged" } else { "extended" });
        let got = read(&c);
        ensure!(got == want, "the members are {got:?} instead of {want:?}");
        c.make_caseless();
        let again = read(&c);
        ensure!(again == want, "made caseless again, the members are {again:?}");
        Ok(())
    };
    sets(run, &|s, _, w| judge(s, w));
    // Every combination of the two cases of each pair of letters.
    let n = run.tier(16_u64, 64);
    run.family(
        "letter-pairs",
        26 * 26 * n,
        |i| {
            let (k, i) = (i % n, i / n);
            let (a, b) = (65 + (i / 26) as u8, 65 + (i % 26) as u8);
            let mut s = if k & 32 != 0 { S::default().not() } else { S::default() };
            for (j, x) in [a, a + 32, b, b + 32].into_iter().enumerate() {
                s.put(x, k >> j & 1 == 1);
            }
            if k & 16 != 0 {
                s = s.xor(S([0, 1, 1 << 40, 1]));
            }
            Some(s)
        },
        judge,
    );
    // All sets of letters that are near each other.
    let bits = run.tier(10, 13);
    run.family(
        "letter-windows",
        2 * (27 - bits) << bits,
        |i| {
            let (at, p) = ((i >> bits) as u8, i & ((1 << bits) - 1));
            let at = if u64::from(at) >= 27 - bits {
                97 + at - (27 - bits) as u8
            } else {
                65 + at
            };
            let mut s = S::default();
            for k in 0..bits {
                s.put(at + k as u8, p >> k & 1 == 1);
            }
            Some(s)
        },
        judge,
    );
}

// C21

pub fn c21(run: &mut Run) {
    sets(run, &|s, many, w| {
        let c = s.class();
        let s = read(&c);
        let mut bits: Vec<u8> = Vec::with_capacity(64);
        let priors: &[(u8, usize)] = if many {
            &[(0xff, 33), (0, 32)]
        } else {
            &[(0, 32), (0xff, 32), (0xa5, 33), (0xff, 64), (0, 40)]
        };
        for &(fill, len) in priors {
            bits.clear();
            bits.resize(len, fill);
            c.fill_bitvector(&mut bits);
            w.steps(1);
            ensure!(bits.len() == len, "the length of the bit vector has changed");
            for (i, &x) in bits.iter().enumerate() {
                let want = if i < 32 { (s.0[i / 8] >> (i % 8 * 8)) as u8 } else { fill };
                ensure!(
                    x == want,
                    "byte {i} of {len} is {x:#04x} instead of {want:#04x}, from {fill:#04x}"
                );
            }
        }
        let (and, cmp) = c.and_cmp_mask();
        w.steps(1);
        let m = s.members();
        if m.is_empty() {
            for b in 0..=255_u8 {
                ensure!(b & and != cmp, "({and:#04x}, {cmp:#04x}) of the empty class accepts {b}");
            }
        } else {
            let all = m.iter().fold(0xff, |a, &b| a & b);
            let any = m.iter().fold(0, |a, &b| a | b);
            let agree = all | !any;
            ensure!(and == agree, "the and-mask is {and:#04x} instead of {agree:#04x}");
            for &b in &m {
                ensure!(b & and == cmp, "({and:#04x}, {cmp:#04x}) refuses the member {b}");
            }
        }
        Ok(())
    });    // All lengths, and many large ones, with varied contents.
    let sizes: Vec<usize> = (32..=run.tier(600, 5_000))
        .chain((10..=run.tier(20, 24)).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]))
        .collect();
    let n = sizes.len() as u64;
    run.family(
        "bit-vectors",
        n * 8,
        |i| Some((sizes[(i % n) as usize], i / n)),
        |&(len, kind), w| {
            let mut s = S::default();
            for b in 0..=255_u8 {
                let member = match kind {
                    0 => false,
                    1 => true,
                    2 => b % 3 == 0,
                    3 => b == 0,
                    4 => b == 255,
                    5 => b >= 128,
                    6 => b.is_ascii_alphanumeric(),
                    _ => b != 64,
                };
                if member {
                    s.put(b, true);
                }
            }
            let prior = |i: usize| (i as u8).wrapping_mul(37) ^ (i >> 8) as u8 ^ 0x5a;
            let mut bits: Vec<u8> = (0..len).map(prior).collect();
            s.class().fill_bitvector(&mut bits);
            w.steps(1);
            w.state(&(len, kind));
            ensure!(bits.len() == len, "the length of the bit vector has changed");
            for (i, &x) in bits.iter().enumerate() {
                let want = if i < 32 { (s.0[i / 8] >> (i % 8 * 8)) as u8 } else { prior(i) };
                ensure!(x == want, "byte {i} of {len} is {x:#04x} instead of {want:#04x}");
            }
            Ok(())
        },
    );
}

// C25

enum Atom {
    Char(u8),
    Set(S),
    Open,
    Close,
    Caret,
    Dash,
}

fn atoms(text: &str, dot: bool) -> Result<Vec<Atom>, String> {
    let mut res = Vec::new();
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        res.push(match c {
            '\\' => {
                let mut e = it.next().ok_or("ends with a backslash")?;
                if dot {
                    // The label itself is escaped.
                    if e == '"' || e == '\'' {
                        res.push(Atom::Char(e as u8));
                        continue;
                    }
                    if e != '\\' {
                        return Err(format!("unknown label escape {e:?}"));
                    }
                    e = it.next().ok_or("ends with a backslash")?;
                }
                match e {
                    't' => Atom::Char(9),
                    'n' => Atom::Char(10),
                    'r' => Atom::Char(13),
                    'x' => {
                        let mut n = 0;
                        for _ in 0..2 {
                            let d = it.next().and_then(|d| d.to_digit(16)).ok_or("incomplete \\x")?;
                            n = n * 16 + d;
                        }
                        Atom::Char(n as u8)
                    }
                    'w' => Atom::Set(
                        S::range(b'a', b'z')
                            .or(S::range(b'A', b'Z'))
                            .or(S::range(b'0', b'9'))
                            .or(S::of(b"_")),
                    ),
                    'd' => Atom::Set(S::range(b'0', b'9')),
                    's' => Atom::Set(S::of(&[9, 10, 11, 12, 13, 32])),
                    e if e.is_ascii_punctuation() => Atom::Char(e as u8),
                    e => return Err(format!("unknown escape {e:?}")),
                }
            }
            '[' => Atom::Open,
            ']' => Atom::Close,
            '^' => Atom::Caret,
            '-' => Atom::Dash,
            '.' => return Err("a bare dot".to_string()),
            '"' if dot => return Err("a bare quotation mark in a label".to_string()),
            ' '..='~' => Atom::Char(c as u8),
            c => return Err(format!("a bare {c:?}")),
        });
    }
    Ok(res)
}

/// Reads the description of a class.
fn read_description(text: &str, dot: bool) -> Result<S, String> {
    if text == "<any>" {
        return Ok(S::default().not());
    }
    if text == "<empty>" {
        return Ok(S::default());
    }
    let a = atoms(text, dot)?;
    let (mut items, mut negated) = (&a[..], false);
    if let Some(Atom::Open) = a.first() {
        ensure!(matches!(a.last(), Some(Atom::Close)), "the bracket is not closed");
        items = &a[1..a.len() - 1];
        if let Some(Atom::Caret) = items.first() {
            negated = true;
            items = &items[1..];
        }
        ensure!(!items.is_empty(), "empty brackets");
    } else {
        ensure!(a.len() == 1, "{} items without brackets", a.len());
    }
    let mut s = S::default();
    let mut i = 0;
    while i < items.len() {
        match &items[i] {
            Atom::Char(c) => {
                if let (Some(Atom::Dash), Some(Atom::Char(d))) = (items.get(i + 1), items.get(i + 2)) {
                    ensure!(c <= d, "reversed range");
                    s = s.or(S::range(*c, *d));
                    i += 2;
                } else {
                    s.put(*c, true);
                }
            }
            Atom::Set(x) => s = s.or(*x),
            _ => return Err("a bare special character".to_string()),
        }
        i += 1;
    }
    Ok(s.flip_if(negated))
}

/// Reads the dump of a parse tree.
fn read_dump(text: &str) -> Result<Vec<TreeEvent>, String> {
    let mut events = Vec::new();
    let mut open: Vec<TreeEvent> = Vec::new();
    let mut empty = false;
    let mut lines = text.lines();
    while let Some(line) = lines.next() {
        let body = line.trim_start_matches(' ');
        let spaces = line.len() - body.len();
        if body == "<empty>" {
            ensure!(
                events.last().map_or(false, |e| matches!(e, TreeEvent::EnterSequence(_))),
                "<empty> is not within a sequence"
            );
            ensure!(spaces / 2 == open.len(), "<empty> is at another level");
            empty = true;
            continue;
        }
        ensure!(spaces % 2 == 0 && spaces / 2 <= open.len(), "bad indentation of {body:?}");
        ensure!(!empty || spaces / 2 < open.len(), "an empty sequence contains {body:?}");
        while open.len() > spaces / 2 {
            events.push(open.pop().expect("open"));
        }
        ensure!(
            !matches!(events.last(), Some(TreeEvent::EnterSequence(_))) || !empty,
            "an empty sequence contains {body:?}"
        );
        empty = false;
        if body == "ALTERNATION" {
            events.push(TreeEvent::EnterAlternation);
            open.push(TreeEvent::LeaveAlternation);
        } else if body == "ASCII CLASS" {
            let next = lines.next().ok_or("a class without description")?;
            let d = next.trim_start_matches(' ');
            ensure!(next.len() - d.len() == spaces + 2, "bad indentation of {d:?}");
            events.push(TreeEvent::Class(read_description(d, false)?.members()));
        } else if body == "SEQUENCE (not captured)" {
            events.push(TreeEvent::EnterSequence(None));
            open.push(TreeEvent::LeaveSequence);
        } else if let Some(n) = body
            .strip_prefix("SEQUENCE (capture index ")
            .and_then(|b| b.strip_suffix(')'))
        {
            events.push(TreeEvent::EnterSequence(Some(n.parse().map_err(|_| "bad index")?)));
            open.push(TreeEvent::LeaveSequence);
        } else {
            return Err(format!("unknown line {body:?}"));
        }
    }
    while let Some(e) = open.pop() {
        events.push(e);
    }
    Ok(events)
}

pub fn c25(run: &mut Run) {
    sets(run, &|s, _, w| {
        let c = s.class();
        let s = read(&c);
        for dot in [false, true] {
            let text = c.describe(dot);
            w.steps(1);
            let how = if dot { "label" } else { "text" };
            let got = read_description(&text, dot).map_err(|e| format!("the {how} {text:?} cannot be read: {e}"))?;
            ensure!(got == s, "the {how} {text:?} denotes {got:?}");
            if !dot {
                w.outcome(match text.as_bytes() {
                    [b'[', b'^', _, ..] => "negated",
                    [b'[', ..] => "listed",
                    [b'<', _, ..] => "named",
                    _ => "single",
                });
            }
        }
        Ok(())
    });
    singles(run, false, &|job: &Job, w: &mut W| {
        let i = &job.items[0];
        if i.e.len() > 1200 {
            return Ok(());
        }
        let dump = verif::dump_expression(&i.e, dom::flags(i.f));
        w.steps(2);
        // The tree of the same expression, as it is compiled.
        let obs = dom::observe(job);
        let (Ok(dump), Some(want)) = (dump, obs.trace.expressions.first().map(|e| &e.tree)) else {
            return Ok(());
        };
        w.state(&dump);
        let got = read_dump(&dump).map_err(|e| format!("{e}, in the dump\n{dump}"))?;
        ensure!(got == *want, "the dump\n{dump}\ndenotes {got:?} instead of {want:?}");
        Ok(())
    });
}
