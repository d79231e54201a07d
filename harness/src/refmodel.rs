//! The reference model: what an expression means, written down independently
//! of the code under test (no recursion, no parser combinators).

use rescan::verif::TreeEvent;

pub const CASELESS: u16 = 0x0001;
pub const DOTALL: u16 = 0x0002;
pub const MULTILINE: u16 = 0x0004;
pub const SINGLEMATCH: u16 = 0x0008;
pub const UTF8: u16 = 0x0020;
pub const UCP: u16 = 0x0040;
pub const SOM: u16 = 0x0100;
pub const QUIET: u16 = 0x0400;

pub const MAX_LENGTH: usize = 16_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Verb<'a> {
    None,
    Ucp,
    Utf8,
    Bad { name: &'a str },
}

/// The leading control verb, and where the rest begins.
pub fn leading_verb(e: &str) -> (Verb<'_>, usize) {
    let b = e.as_bytes();
    if b.len() < 4 || b[0] != b'(' || b[1] != b'*' {
        return (Verb::None, 0);
    }
    let close = match b.iter().position(|&c| c == b')') {
        None | Some(2) => return (Verb::None, 0),
        Some(p) => p,
    };
    match &e[2..close] {
        "UCP" => (Verb::Ucp, close + 1),
        "UTF8" | "UTF" => (Verb::Utf8, close + 1),
        name => (Verb::Bad { name }, close + 1),
    }
}

/// Why an expression is rejected.
#[derive(Clone, Debug, PartialEq)]
pub enum Reject {
    Length,
    QuietSom,
    Verb { name: String },
    NonAscii(usize),
    Unmatched(usize),
    Missing(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Modes {
    pub caseless: bool,
    pub dotall: bool,
    pub multiline: bool,
    pub ucp: bool,
    pub utf8: bool,
}

/// What an accepted expression is.
#[derive(Clone, Debug)]
pub struct Parsed {
    /// Where the expression begins, behind the control verb.
    pub body: usize,
    pub modes: Modes,
    pub has_bar: bool,
    /// Number of characters other than parentheses and bars.
    pub chars: usize,
}

pub fn reference(e: &str, flags: u16, max_length: usize) -> Result<Parsed, Reject> {
    if e.len() > max_length {
        return Err(Reject::Length);
    }
    if flags & (QUIET | SOM) == QUIET | SOM {
        return Err(Reject::QuietSom);
    }
    let (verb, body) = leading_verb(e);
    if let Verb::Bad { name } = verb {
        return Err(Reject::Verb {
            name: name.to_string(),
        });
    }
    let mut open: Vec<usize> = Vec::new();
    let mut has_bar = false;
    let mut chars = 0;
    for (i, b) in e.bytes().enumerate().skip(body) {
        match b {
            b'(' => open.push(i),
            b')' => {
                if open.pop().is_none() {
                    return Err(Reject::Unmatched(i));
                }
            }
            b'|' => has_bar = true,
            0x80..=0xff => return Err(Reject::NonAscii(i)),
            _ => chars += 1,
        }
    }
    if let Some(&i) = open.last() {
        return Err(Reject::Missing(i));
    }
    Ok(Parsed {
        body,
        modes: Modes {
            caseless: flags & CASELESS != 0,
            dotall: flags & DOTALL != 0,
            multiline: flags & MULTILINE != 0,
            ucp: flags & UCP != 0 || verb == Verb::Ucp,
            utf8: flags & UTF8 != 0 || verb == Verb::Utf8,
        },
        has_bar,
        chars,
    })
}

/// The bytes that a literal character stands for.
pub fn class_of(c: u8, caseless: bool) -> Vec<u8> {
    if caseless && matches!(c, b'a'..=b'z' | b'A'..=b'Z') {
        vec![c & 0xdf, c | 0x20]
    } else {
        vec![c]
    }
}

/// The literal characters of an accepted expression.
pub fn chars_of(e: &str, p: &Parsed) -> Vec<u8> {
    e.bytes()
        .skip(p.body)
        .filter(|b| !matches!(b, b'(' | b')' | b'|'))
        .collect()
}

/// The parse tree of an accepted expression.
pub fn tree_of(e: &str, p: &Parsed) -> Vec<TreeEvent> {
    // Which groups contain a bar; the root is group 0.
    let body = &e.as_bytes()[p.body..];
    let mut bars = vec![false];
    let mut stack = vec![0_usize];
    for &b in body {
        match b {
            b'(' => {
                stack.push(bars.len());
                bars.push(false);
            }
            b')' => {
                stack.pop();
            }
            b'|' => bars[*stack.last().expect("balanced")] = true,
            _ => {}
        }
    }
    let mut events = Vec::with_capacity(2 * body.len() + 8);
    let enter = |events: &mut Vec<TreeEvent>, g: usize| {
        events.push(TreeEvent::EnterSequence(Some(g as u32)));
        if bars[g] {
            events.push(TreeEvent::EnterAlternation);
            events.push(TreeEvent::EnterSequence(None));
        }
    };
    let leave = |events: &mut Vec<TreeEvent>, g: usize| {
        if bars[g] {
            events.push(TreeEvent::LeaveSequence);
            events.push(TreeEvent::LeaveAlternation);
        }
        events.push(TreeEvent::LeaveSequence);
    };
    let mut next = 1;
    let mut stack = vec![0];
    enter(&mut events, 0);
    for &b in body {
        match b {
            b'(' => {
                stack.push(next);
                enter(&mut events, next);
                next += 1;
            }
            b')' => {
                let g = stack.pop().expect("balanced");
                leave(&mut events, g);
            }
            b'|' => {
                events.push(TreeEvent::LeaveSequence);
                events.push(TreeEvent::EnterSequence(None));
            }
            c => events.push(TreeEvent::Class(class_of(c, p.modes.caseless))),
        }
    }
    leave(&mut events, 0);
    events
}

/// Whether `text` contains `what` followed by the number, and nothing that
/// makes it a longer number.
pub fn mentions(text: &str, what: &str, n: u64) -> bool {
    let pat = format!("{what} {n}");
    let mut at = 0;
    while let Some(p) = text[at..].find(&pat) {
        let end = at + p + pat.len();
        if !text.as_bytes().get(end).map_or(false, u8::is_ascii_digit) {
            return true;
        }
        at = at + p + 1;
        while !text.is_char_boundary(at) {
            at += 1;
        }
    }
    false
}
