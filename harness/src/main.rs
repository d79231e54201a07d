#![cfg_attr(rescan_mc_work, feature(thread_local))]

mod alloc;
mod dom;
mod engine;
mod props;
mod refmodel;
mod work;

use engine::{Run, Select};
use std::collections::HashMap;

#[cfg(not(miri))] // Miri checks more of its own.
#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(run: &Run) -> String {
    let fams: Vec<String> = run
        .families
        .iter()
        .map(|f| {
            format!(
                "{{\"name\":{},\"size\":{},\"executions\":{},\"states\":{},\"wall_s\":{:.3}}}",
                json_str(&f.name),
                f.size,
                f.execs,
                f.states,
                f.wall
            )
        })
        .collect();
    let outs: Vec<String> = run
        .outcomes
        .iter()
        .map(|(k, v)| format!("{}:{v}", json_str(k)))
        .collect();
    let samples: Vec<String> = run.samples.iter().map(|s| json_str(s)).collect();
    let violation = run.violation.as_ref().map_or("null".to_string(), |v| {
        format!(
            "{{\"family\":{},\"index\":{},\"case\":{},\"what\":{}}}",
            json_str(&v.family),
            v.index,
            json_str(&v.case),
            json_str(&v.what)
        )
    });
    format!(
        "{{\"families\":[{}],\"outcomes\":{{{}}},\"samples\":[{}],\"states\":{},\"states_capped\":{},\"executions\":{},\"skipped\":{},\"transitions\":{},\"violation\":{}}}",
        fams.join(","),
        outs.join(","),
        samples.join(","),
        run.states,
        run.states_capped,
        run.execs,
        run.skipped,
        run.transitions,
        violation
    )
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("history") {
        props::c16::child(&args[1..]);
        return;
    }
    let mut opt: HashMap<&str, &str> = HashMap::new();
    let mut i = 1;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--"), &args[i + 1]);
        i += 2;
    }
    let prop = args.first().expect("usage: rescan-mc PROPERTY [--option value]...");
    let num = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().expect("number"));
    let select = match (opt.get("family"), opt.contains_key("prefix")) {
        (None, _) => Select::All,
        (Some(f), false) => Select::One((*f).to_string(), num("index", 0)),
        (Some(f), true) => Select::Prefix((*f).to_string(), num("index", 0)),
    };
    engine::open_slots(opt.get("slots").copied());
    engine::install_panic_hook(opt.contains_key("deaths-only"));
    let mut run = Run::new(
        opt.get("tier") == Some(&"thorough"),
        num("threads", 8) as usize,
        num("stack", 2048) as usize * 1024,
        select,
    );
    run.limit = num("limit", u64::MAX);
    run.shard = (num("shard", 0), num("shards", 1));
    run.deaths_only = opt.contains_key("deaths-only");
    run.trace = opt.contains_key("trace");
    props::run(prop, &mut run);
    if let Some(out) = opt.get("out") {
        std::fs::write(out, report(&run)).expect("report");
    }
    for f in &run.families {
        println!("FAMILY {} size={} executions={} states={} {:.2}s", f.name, f.size, f.execs, f.states, f.wall);
    }
    println!(
        "TOTAL states={} executions={} transitions={} skipped={} {:?}",
        run.states, run.execs, run.transitions, run.skipped, run.outcomes
    );
    if let Some(v) = &run.violation {
        println!("FOUND family={} index={}\n  case: {}\n  what: {}", v.family, v.index, v.case, v.what);
        std::process::exit(1);
    }
}
