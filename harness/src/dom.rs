//! Finite, indexed domains of expressions, and the observation of compilations.

use rescan::verif::{self, Limits, Trace};
use rescan::{Flags, Mode, SomHorizon};
use std::fmt;

pub fn mode(m: u8) -> Mode {
    match m {
        0 => Mode::Block,
        1 => Mode::Vectored,
        2 => Mode::Stream(None),
        3 => Mode::Stream(Some(SomHorizon::Large)),
        4 => Mode::Stream(Some(SomHorizon::Medium)),
        _ => Mode::Stream(Some(SomHorizon::Small)),
    }
}

pub const MODES: u8 = 6;

pub fn flags(f: u16) -> Flags {
    const NAMED: [Flags; 11] = [
        Flags::CASELESS,
        Flags::DOTALL,
        Flags::MULTILINE,
        Flags::SINGLEMATCH,
        Flags::ALLOWEMPTY,
        Flags::UTF8,
        Flags::UCP,
        Flags::PREFILTER,
        Flags::SOM_LEFTMOST,
        Flags::COMBINATION,
        Flags::QUIET,
    ];
    NAMED
        .iter()
        .enumerate()
        .filter(|(k, _)| f >> k & 1 != 0)
        .fold(Flags::empty(), |s, (_, f)| s | *f)
}

#[derive(Clone, Eq, Hash, PartialEq)]
pub struct Item {
    pub e: String,
    pub f: u16,
    pub id: u32,
}

impl fmt::Debug for Item {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut e = format!("{:?}", self.e);
        if e.len() > 400 {
            e = crate::engine::clip(e);
            if e.len() > 400 {
                let mut a = 150;
                while !e.is_char_boundary(a) {
                    a -= 1;
                }
                let mut b = e.len() - 150;
                while !e.is_char_boundary(b) {
                    b += 1;
                }
                e = format!("{}...{}", &e[..a], &e[b..]);
            }
        }
        write!(f, "{{{} ({} bytes) flags={:#06x} id={}}}", e, self.e.len(), self.f, self.id)
    }
}

pub fn item(e: &str, f: u16, id: u32) -> Item {
    Item {
        e: e.to_string(),
        f,
        id,
    }
}

/// A compilation.
#[derive(Clone, Eq, Hash, PartialEq)]
pub struct Job {
    pub items: Vec<Item>,
    pub mode: u8,
    pub limits: Option<Limits>,
}

impl fmt::Debug for Job {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mode={} ", self.mode)?;
        if let Some(l) = &self.limits {
            write!(f, "{l:?} ")?;
        }
        write!(f, "{} items ", self.items.len())?;
        if self.items.len() > 12 {
            write!(
                f,
                "{:?} ... {:?}",
                &self.items[..4],
                &self.items[self.items.len() - 4..]
            )
        } else {
            write!(f, "{:?}", self.items)
        }
    }
}

pub fn single(e: &str, f: u16) -> Job {
    Job {
        items: vec![item(e, f, 0)],
        mode: 0,
        limits: None,
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct ErrObs {
    /// 'p' parse, 'l' located parse, 'r' resource limit, 'o' other, '?' if that
    /// cannot be observed.
    pub kind: char,
    pub reason: String,
    pub index: Option<u32>,
    pub text: String,
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Obs {
    /// The mode of the database.
    pub out: Result<char, ErrObs>,
    pub trace: Trace,
}

pub fn err_obs(e: &rescan::CompileError) -> ErrObs {
    let text = e.to_string();
    let Some((kind, reason, index)) = verif::error_parts(e) else {
        // All there is, is the text.
        let (reason, index) = match text.rsplit_once(" in expression ") {
            Some((r, i)) if i.parse::<u32>().is_ok() => (r.to_string(), i.parse().ok()),
            _ => (text.clone(), None),
        };
        let kind = '?';
        return ErrObs { kind, reason, index, text };
    };
    ErrObs {
        kind: match kind {
            rescan::ErrorKind::Parse => 'p',
            rescan::ErrorKind::LocatedParse => 'l',
            rescan::ErrorKind::ResourceLimit => 'r',
            rescan::ErrorKind::Other => 'o',
        },
        reason: reason.to_string(),
        index,
        text,
    }
}

pub fn is_resource(e: &ErrObs) -> bool {
    e.kind == 'r' || e.kind == '?'
}

pub fn not_resource(e: &ErrObs) -> bool {
    e.kind != 'r'
}

fn outcome(r: &Result<rescan::Database, rescan::CompileError>) -> Result<char, ErrObs> {
    match r {
        Ok(db) => Ok(verif::database_mode(db)),
        Err(e) => Err(err_obs(e)),
    }
}

pub fn compile(job: &Job) -> Result<rescan::Database, rescan::CompileError> {
    let mode = mode(job.mode);
    if job.items.len() == 1 && job.items[0].id == 0 && job.limits.is_none() {
        return rescan::compile(&job.items[0].e, flags(job.items[0].f), &mode);
    }
    let es: Vec<&str> = job.items.iter().map(|i| i.e.as_str()).collect();
    let fs: Vec<Flags> = job.items.iter().map(|i| flags(i.f)).collect();
    let ids: Vec<u32> = job.items.iter().map(|i| i.id).collect();
    match &job.limits {
        None => rescan::compile_multi(&es, &fs, &ids, &mode),
        Some(l) => verif::compile_with(&es, &fs, &ids, &mode, l),
    }
}

/// Compiles through the public interface, and observes.
pub fn observe(job: &Job) -> Obs {
    verif::start();
    let r = compile(job);
    let trace = verif::take();
    Obs {
        out: outcome(&r),
        trace,
    }
}

// Expressions.

/// An indexed finite set of expressions.
pub struct Strs {
    pub name: &'static str,
    pub n: u64,
    pub get: Box<dyn Fn(u64) -> Option<String> + Sync>,
}

/// Number of words of length 0 to `len` over `k` symbols.
pub fn words(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

/// The `i`-th word over `k` symbols, the shortest first.
pub fn word(mut i: u64, k: u64) -> Vec<u64> {
    let mut len = 0;
    loop {
        let c = k.pow(len);
        if i < c {
            break;
        }
        i -= c;
        len += 1;
    }
    let mut w = vec![0; len as usize];
    for x in w.iter_mut().rev() {
        *x = i % k;
        i /= k;
    }
    w
}

pub fn all_strings(name: &'static str, symbols: &'static [&'static str], len: u32) -> Strs {
    let k = symbols.len() as u64;
    Strs {
        name,
        n: words(k, len),
        get: Box::new(move |i| {
            Some(
                word(i, k)
                    .into_iter()
                    .map(|s| symbols[s as usize])
                    .collect(),
            )
        }),
    }
}

pub const S1: &[&str] = &["a", "(", ")", "|"];
pub const S2: &[&str] = &["a", "B", "5", "*", "(", ")", "|", "é"];
pub const S3: &[&str] = &[
    "a", "Z", "(", ")", "|", "*", "(*", "(*)", "(*UTF8)", "(*UTF)", "(*UCP)", "(*ANY)", "(*X)",
    "(*LIMIT_MATCH=3)", "(*utf8)", "(*UTF8", "UCP)", "€",
];

/// Contexts for a character, which takes the place of '@'.
pub const CONTEXTS: &[&str] = &[
    "@", "a@", "@a", "(@)", "@|", "|@", "(a|@)", "((@))b", "(*UTF8)@", "(*UCP)(@|)", "a(b)@", "A@b@",
    "@@", "(|)@", "@()", "x|y|@z",
];

/// Every character of the given set in every context.
pub fn chars_in_contexts(name: &'static str, lo: u32, hi: u32, contexts: usize) -> Strs {
    let k = u64::from(hi - lo);
    Strs {
        name,
        n: k * contexts as u64,
        get: Box::new(move |i| {
            let c = char::from_u32(lo + (i % k) as u32)?;
            let ctx = CONTEXTS[(i / k) as usize];
            Some(ctx.replace('@', c.encode_utf8(&mut [0; 4])))
        }),
    }
}

/// Every pair of ASCII characters, plainly and around a group and a bar.
pub fn pairs() -> Strs {
    Strs {
        name: "ascii-pairs",
        n: 128 * 128 * 5,
        get: Box::new(|i| {
            let a = (i % 128) as u8 as char;
            let b = (i / 128 % 128) as u8 as char;
            Some(match i / (128 * 128) {
                0 => format!("{a}{b}"),
                1 => format!("{a}({b})"),
                2 => format!("{a}|{b}"),
                3 => format!("(*UTF8){a}{b}"),
                _ => format!("(*{a}{b})a"),
            })
        }),
    }
}

fn lit_char(i: usize) -> char {
    const CHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .*+?[]{}^$\\-_/\x00\x01\t\n\r\x7f\"'";
    CHARS[i % CHARS.len()] as char
}

fn lits(n: usize) -> String {
    (0..n).map(lit_char).collect()
}

type Template = (&'static str, fn(usize) -> String);

/// Expressions that grow with a parameter.
pub const TEMPLATES: &[Template] = &[
    ("literal", |n| "a".repeat(n)),
    ("letters", |n| (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()),
    ("mixed-literal", lits),
    ("nest", |n| "(".repeat(n) + "a" + &")".repeat(n)),
    ("nest-empty", |n| "(".repeat(n) + &")".repeat(n)),
    ("nest-bar", |n| "(|".repeat(n) + &")".repeat(n)),
    ("nest-bar-right", |n| "(".repeat(n) + &"|)".repeat(n)),
    ("nest-char", |n| "(b".repeat(n) + &")c".repeat(n)),
    ("groups", |n| "()".repeat(n)),
    ("groups-char", |n| "(a)".repeat(n)),
    ("groups-bar", |n| "(a|B)".repeat(n)),
    ("bars", |n| "|".repeat(n)),
    ("bars-char", |n| "a|".repeat(n)),
    ("bars-in-group", |n| format!("x({}z)y", "a|".repeat(n))),
    ("bars-two-levels", |n| format!("p|(q|{}r)|s", "(a|b)|".repeat(n))),
    ("open", |n| "(".repeat(n)),
    ("open-char", |n| "(a".repeat(n)),
    ("open-after", |n| lits(n) + "("),
    ("open-then-closed", |n| "(".to_string() + &"(a)".repeat(n)),
    ("open-many-closed", |n| "(".repeat(n + 1) + &")".repeat(n)),
    ("close-after", |n| lits(n) + ")"),
    ("close-many", |n| "(".repeat(n) + &")".repeat(n + 1) + "a"),
    ("close-groups", |n| "(a)".repeat(n) + ")("),
    ("close-bars", |n| "a|".repeat(n) + ")"),
    ("foreign-2", |n| lits(n) + "é"),
    ("foreign-3", |n| "(".repeat(n) + "€)"),
    ("foreign-4", |n| "a|".repeat(n) + "😀("),
    ("foreign-many", |n| "é".repeat(n)),
    ("verb-known", |n| "(*UTF8)".to_string() + &lits(n)),
    ("verb-known-bar", |n| "(*UCP)".to_string() + &"|a".repeat(n)),
    ("verb-known-close", |n| "(*UTF)".to_string() + &lits(n) + ")"),
    ("verb-known-foreign", |n| "(*UCP)".to_string() + &"(b)".repeat(n) + "ß"),
    ("verb-known-open", |n| "(*UTF8)".to_string() + &"()".repeat(n) + "(" + &lits(n % 7)),
    ("verb-unknown", |n| format!("(*{})", "X".repeat(n))),
    ("verb-utf-more", |n| format!("(*UTF{})a", "8".repeat(n))),
    ("verb-foreign", |n| format!("(*{}é)a", "Y".repeat(n))),
    ("verb-open", |n| format!("(*{}", "Z".repeat(n))),
    ("verb-late", |n| lits(n) + "(*UTF8)"),
    ("verb-limit", |n| format!("(*LIMIT_MATCH={})", "7".repeat(n))),
    ("tail-bar", |n| lits(n) + "|"),
    ("head-bar", |n| "|".to_string() + &lits(n)),
    ("mid-group", |n| lits(n) + "(" + &lits(n / 2) + ")"),
];

pub fn template_sizes(thorough: bool) -> Vec<usize> {
    if thorough {
        return (0..=16_001).collect();
    }
    let mut v: Vec<usize> = (0..=300).collect();
    for k in 8..=14 {
        let p = 1_usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([
        500, 1000, 2000, 3199, 3200, 3201, 4999, 5000, 5332, 5333, 5334, 5400, 7990, 7993, 7994, 7996, 7998, 7999, 8000,
        8001, 9999, 10_000, 12_000, 15_992, 15_993, 15_994, 15_995, 15_996, 15_997, 15_998, 15_999, 16_000, 16_001,
    ]);
    v.sort_unstable();
    v.dedup();
    v
}

/// All templates with all sizes, up to a little more than the longest
/// acceptable expression.
pub fn templates(thorough: bool) -> Strs {
    let sizes = template_sizes(thorough);
    let k = sizes.len() as u64;
    Strs {
        name: "templates",
        n: k * TEMPLATES.len() as u64,
        get: Box::new(move |i| {
            // The largest sizes of all the templates are next to each other,
            // which spreads the work.
            let t = TEMPLATES.len() as u64;
            let n = sizes[(i / t) as usize];
            let s = TEMPLATES[(i % t) as usize].1(n);
            if s.len() > 16_100 {
                return None;
            }
            Some(s)
        }),
    }
}

/// Verb-like beginnings with every kind of continuation.
pub fn verbs() -> Strs {
    const NAMES: &[&str] = &[
        "UTF8", "UTF", "UCP", "UTF16", "UTF32", "CR", "LF", "CRLF", "ANYCRLF", "ANY", "BSR_ANYCRLF",
        "BSR_UNICODE", "NO_AUTO_POSSESS", "NO_START_OPT", "LIMIT_MATCH=", "LIMIT_MATCH=3",
        "LIMIT_RECURSION=7", "LIMIT_MATCH", "LIMIT_RECURSION", "utf8", "ucp", "Utf8", "UTF8 ", " UTF8", "UTF88", "UT",
        "U", "UTF7", "UCPX", "XUCP", "UCP,UTF8", "*UTF8", "(", "((", "|", "a|b", "é", "漢字", "\n", "\0", "",
        "UTF8|UCP", "UTF8(", "(*UTF8", "FAIL", "ACCEPT", "COMMIT", "F", "MARK:x", "LIMIT_MATCH=x(", "NO_JIT",
    ];
    const HEADS: &[&str] = &["(*", "(", "*", "(**", "a(*", "((*", " (*", "|(*", "()(*", "é(*"];
    const CLOSES: &[&str] = &[")", "", "))", "()"];
    const TAILS: &[&str] = &[
        "", "a", "A", "|", "a|b", "(a)", "(a|B)", ")", "(", "é", "aé", "(*UTF8)", "(*UCP)b", "(*X)", "(*)", "*)", "(|)x",
    ];
    let (a, b, c, d) = (HEADS.len(), NAMES.len(), CLOSES.len(), TAILS.len());
    Strs {
        name: "verbs",
        n: (a * b * c * d) as u64,
        get: Box::new(move |i| {
            let i = i as usize;
            Some(
                [
                    HEADS[i % a],
                    NAMES[i / a % b],
                    CLOSES[i / a / b % c],
                    TAILS[i / a / b / c],
                ]
                .concat(),
            )
        }),
    }
}

/// A few expressions of every kind.
pub const SHORT: &[&str] = &[
    "", "a", "Z", "5", "ab", "aB", "(a)", "(", ")", "()", "|", "a|b", "A|", "((a)b)", "(a|B)c", "(*UTF8)a", "(*UTF)(b|)",
    "(*UCP)A", "(*UCP)", "(*X)a", "(*ANY)a", "(*)", "*a", ".", "[a]", "\\d", "a+", "é", "aé|", "(é", "a)b", "x(y(z",
    "(*UTF8)é", "(*UTF8))", "\0", "\x7f", "{", "@", "[", "`", "k", "s", "(*UTF8)(*UCP)a", " ", "#", "a b",
];

/// The flag sets that are combined with the large domains.
pub const FLAG_SETS: &[u16] = &[0, 0x0001, 0x0408, 0x06ff, 0x0500, 0x0367];

pub fn expressions(thorough: bool) -> Vec<Strs> {
    vec![
        all_strings("words-S1", S1, if thorough { 12 } else { 10 }),
        all_strings("words-S2", S2, if thorough { 7 } else { 6 }),
        all_strings("words-S3", S3, if thorough { 5 } else { 4 }),
        verbs(),
        chars_in_contexts("ascii-in-contexts", 0, 128, CONTEXTS.len()),
        pairs(),
        templates(thorough),
    ]
}

/// All Unicode characters in a few contexts.
pub fn unicode(thorough: bool) -> Strs {
    chars_in_contexts("unicode-in-contexts", 0, 0x11_0000, if thorough { 10 } else { 2 })
}

/// All sets of at most two flags, and of at least nine.
pub fn few_flags() -> Vec<u16> {
    (0..2048u16)
        .filter(|f| f.count_ones() <= 2 || f.count_ones() >= 9)
        .collect()
}

// Lists.

pub const IDS: &[u32] = &[0, 1, 7, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];

/// The elements of the lists that are enumerated.
pub fn elements() -> Vec<Item> {
    vec![
        item("abc", 0, 0),
        item("Ab", 0x0001, 0),
        item("a|b", 0, 1),
        item("d", 0x0008, 2),
        item("", 0x0002, 1),
        item("(x)y", 0x0408, 2),
        item("(*UTF8)(k|L)", 0x0009, 2),
        item("(*UCP)abc", 0x0004, 3),
        item("abc", 0x0400, 0),
        item("zzzz", 0x0001, u32::MAX),
        item("ab)", 0, 4),
        item("(*ANY)q", 0x0001, 5),
        item("q", 0x0500, 6),
        item("uü(", 0, 7),
    ]
}

/// Lists of up to `len` elements.
pub fn list(i: u64, elements: &[Item]) -> Job {
    Job {
        items: word(i, elements.len() as u64)
            .into_iter()
            .map(|k| elements[k as usize].clone())
            .collect(),
        mode: (i % 6) as u8,
        limits: None,
    }
}

/// A literal for each number, none a prefix of another.
pub fn numbered(i: usize) -> String {
    let mut i = i;
    let mut s = vec![b'a' + (i % 26) as u8];
    i /= 26;
    while i > 0 {
        s.push(b'A' + (i % 26) as u8);
        i /= 26;
    }
    s.reverse();
    String::from_utf8(s).expect("ASCII")
}

pub fn list_sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if thorough { (1..=600).collect() } else { (1..=40).collect() };
    v.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 1025, 4096]);
    v.extend([9_999, 10_000, 10_001, 65_540]);
    if thorough {
        v.extend([2049, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub const LONG_LISTS: u64 = 12;

/// Long lists of various kinds.
pub fn long_list(kind: u64, n: usize) -> Job {
    let mut items: Vec<Item> = (0..n)
        .map(|i| match kind {
            0 => item(&numbered(i), 0, i as u32),
            1 => item("abc", 0x0001, 5),
            2 => item(&numbered(i), 0x0008, (n - i) as u32),
            3 => item(if i % 2 == 0 { "a|b" } else { "xyz" }, (i % 3) as u16, (i % 7) as u32 * 2),
            4 => item("", 0, i as u32),
            5 => item(&numbered(i), (i % 2) as u16 * 0x0401, (i / 2) as u32),
            6 => item(&format!("({})", numbered(i)), 0x0408, (i % 300) as u32),
            7 => item(&numbered(i), 0x0001, 0),
            8 => item(&numbered(n - i), 0, 3),
            9 => item(&numbered(i), 0x0008, i as u32),
            10 => item("a|b", if i % 3 == 0 { 0x0008 } else { 0 }, (i % 3) as u32),
            _ => item(&"a".repeat(1 + (n - i) % 80), (i % 2) as u16, (i % 5) as u32),
        })
        .collect();
    match kind {
        7 => items.push(item("(((", 0x0001, 0)),
        8 => items.push(item("a|b", 0x0008, 3)),
        9 => items.push(item("z", 0, (n / 2) as u32)),
        _ => {}
    }
    Job {
        items,
        mode: (n % 6) as u8,
        limits: None,
    }
}
