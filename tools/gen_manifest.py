#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    props[p["id"]] = p
EXPR = "bounded-exhaustive stateless model checking of the real compiler: every expression of finite indexed domains, judged by a reference model"
NOTE = "Every case of the stated finite families is executed on the real code, in builds with and without debug assertions; nothing is claimed for inputs outside the families (bounds in DESIGN.md). Trusts the reference model and the guarded hooks."
T = {
 "C01": "exhaustive enumeration of expressions, lists, flags and modes on the real compiler, with crash, panic and hang detection per case",
 "C02": EXPR, "C03": EXPR, "C04": EXPR, "C05": EXPR, "C06": EXPR,
 "C07": "exhaustive enumeration of lists of expressions on the real compiler, against element-wise compilations",
 "C08": "exhaustive enumeration of histories of registrations (lists) on the real compiler, against a reference model",
 "C09": "exhaustive enumeration of limits and of compilations at, below and above them",
 "C10": EXPR, "C11": "exhaustive enumeration of sequences of additions to the real tries, against a map of prefixes",
 "C12": "exhaustive enumeration of expressions and lists on the real compiler",
 "C13": "exhaustive enumeration of operation sequences on the real report manager, against a reference model",
 "C14": "exhaustive enumeration of operation sequences on the real report manager, against a reference model",
 "C15": "exhaustive enumeration of modes, expressions, data and histories of scans",
 "C16": "exhaustive exploration of call histories and of thread interleavings (preemption-bounded controlled scheduler) on the real compiler",
 "C17": "exhaustive enumeration of states and operation sequences of the real class, against a set of 256 bits",
 "C18": "exhaustive enumeration of classes and arguments on the real code, against the member list",
 "C19": "exhaustive enumeration of classes and pairs of classes on the real code, against the member list",
 "C20": "exhaustive enumeration of bytes and of classes on the real code",
 "C21": "exhaustive enumeration of classes and prior contents on the real code",
 "C22": "exhaustive enumeration of literals, pairs and triples of literals on the real code",
 "C23": "exhaustive enumeration of values (all of the small widths) and alignments on the real code",
 "C24": "exhaustive enumeration of counts (all 2^32 in chunks) and pairs on the real code",
 "C25": "exhaustive enumeration of classes and trees; each dump is read back by an independent reader",
 "C26": EXPR,
 "C27": "exhaustive enumeration of position sets with all flags on the real code, against a reference model",
 "C28": "exhaustive enumeration of all resource combinations on the real code",
 "C30": "exhaustive enumeration of small automata, settings and prior literals on the real builder, against a reference model",
 "C32": "exhaustive enumeration of expressions, lists and histories on the real code, with every allocation counted",
 "C33": "exhaustive enumeration of expressions, lists and histories on the real code, with every executed basic block counted",
 "C34": "exhaustive enumeration of trees and of the component at which the visitor refuses, on the real code, against a reference model",
 "C35": "exhaustive fault injection: every write of every dump of finite domains fails once, on the real code",
 "C36": "exhaustive enumeration of all 2^16 values and all pairs of flag sets on the real code",
 "C37": EXPR,
 "C31": "exhaustive enumeration of cases of finite domains on the real code, with every memory access monitored (AddressSanitizer, Miri)",
}
checks = []
for pid in sorted(T):
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} quick",
        "thorough_cmd": f"python3 check.py {pid} thorough",
        "technique": T[pid],
        "level": "model_checking",
        "level_note": NOTE,
    })
hooks = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H", "--grep=^hooks:"], text=True).split()
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "--cfg rescan_verif", "enable": "RUSTFLAGS='--cfg rescan_verif' cargo build (see check.py)", "source_commits": hooks},
    "checks": checks,
    "not_applicable": [{"property": "C29", "reason": "Scanning is not implemented at this commit: scan() examines no data and has no means of reporting a match, so that there is no behaviour to explore. (What scan does is covered by C15.)"}],
    "notes": "One explorer (harness/) for all properties; check.py builds it from /repo's working tree, runs it in several builds, confirms and records violations.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
