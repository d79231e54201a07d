#!/usr/bin/env python3
"""Decides a property of rescan by exhaustive exploration.

usage: check.py PROPERTY [quick|thorough]
       check.py --replay FILE

Builds the explorer with /repo's working tree, explores all the cases of the
property in several builds, and writes evidence/PROPERTY.json.
"""
import json
import os
import re
import resource
import signal
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
SLOT = struct.Struct("<120sQQ")
MEMORY = 14 << 30

NOTES = {
    "checked": "optimised, with debug assertions and overflow checks",
    "release": "optimised, without debug assertions",
    "dev": "not optimised, with debug assertions and overflow checks",
    "asan": "optimised, with debug assertions, every memory access checked by AddressSanitizer",
    "work": "optimised, with the standard library, every basic block that is executed counted",
    "miri": "interpreted by Miri, which checks every operation for undefined behaviour and data races",
}


def plan(prop):
    """The explorations: name of the property for the explorer, build, stack in KiB."""
    if prop == "C31":
        return [("C31", "asan", 65536), ("C31-interpreted", "miri", 2048)]
    if prop == "C33":
        return [("C33", "work", 2048)]
    p = [(prop, "checked", 2048), (prop, "release", 2048)]
    if prop == "C01":
        # Without optimisation, the stack frames are larger.
        p += [("C01-deep", "dev", 8192), ("C01-half", "dev", 2048)]
    return p


# The hooks come in groups. Those that a property is not judged by can be left
# out, should they not fit the code (a hook may name something that has been
# renamed, say, and must not keep the other properties from being judged).
HOOKS = """alignment build-call chars classes depths dumps errors expressions graph-call graphs info info-call limits literal-call literals masks
mode modes ng-literals parsed-call positions precision report-manager reports runtime scratch sets small-write
small-write-graphs trees tries walks""".split()
SETS = "parsed-call build-call sets limits literals "
ESSENTIAL = {
    "C01": "limits", "C02": "", "C03": "parsed-call trees", "C04": "parsed-call trees graph-call graphs limits literals literal-call",
    "C05": "errors", "C06": "parsed-call modes trees", "C07": SETS + "reports tries",
    "C08": SETS + "errors reports ng-literals", "C09": SETS + "errors reports report-manager ng-literals literal-call",
    "C10": SETS + "errors literal-call ng-literals reports graph-call graphs",
    "C11": SETS + "tries small-write literal-call",
    "C12": SETS + "depths ng-literals literal-call graph-call graphs",
    "C13": SETS + "reports report-manager errors literal-call", "C14": SETS + "reports report-manager errors literal-call",
    "C15": "mode precision scratch", "C16": SETS + "scratch reports tries", "C17": "classes", "C18": "classes", "C19": "classes",
    "C20": "classes chars", "C21": "classes masks", "C22": "literals", "C23": "alignment", "C24": "depths",
    "C25": "classes dumps trees parsed-call", "C26": "parsed-call trees graph-call graphs limits literals literal-call",
    "C27": "positions expressions", "C28": "runtime",
    "C30": SETS + "small-write-graphs expressions graphs tries", "C31": "", "C32": "scratch", "C33": "scratch",
    "C34": "walks", "C35": "classes dumps", "C36": "", "C37": "parsed-call info info-call graph-call graphs limits",
}


def env(profile="checked", without=()):
    e = dict(os.environ)
    e["RUSTFLAGS"] = "--cfg rescan_verif" + "".join(f' --cfg rescan_verif_without="{g}"' for g in without)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    if profile in ("asan", "miri", "work"):
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["RUSTFLAGS"] += " -Awarnings"
    if profile == "work":
        e["RUSTFLAGS"] += (" --cfg rescan_mc_work -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3"
                           " -Cllvm-args=-sanitizer-coverage-trace-pc-guard")
    if profile == "asan":
        e["RUSTFLAGS"] += " -Zsanitizer=address"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:hard_rss_limit_mb=14000"
    if profile == "miri":
        # The graph library breaks the rules of Stacked Borrows, which are but
        # a proposal.
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def left_out(prop):
    """The groups of hooks that do not fit the code."""

    def fits(without):
        e = env()
        e["RUSTFLAGS"] = ""
        cmd = ["cargo", "rustc", "--offline", "-p", "rescan", "--lib", "--profile", "check",
               "--target-dir", os.path.join(BUILD, "hooks"), "--", "-Awarnings", "--cfg", "rescan_verif"]
        for g in without:
            cmd += ["--cfg", f'rescan_verif_without="{g}"']
        return subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                              timeout=300).returncode == 0

    without = list(HOOKS)
    if fits([]) or not fits(without):
        return []
    # The essential ones first: of two that do not fit together, they stay.
    for g in sorted(HOOKS, key=lambda g: g not in ESSENTIAL[prop].split()):
        fewer = [h for h in without if h != g]
        if fits(fewer):
            without = fewer
    missing = [g for g in without if g in ESSENTIAL[prop].split()]
    if missing:
        raise RuntimeError(f"hooks that {prop} is judged by do not fit the code: {' '.join(missing)}")
    return without


def build(profile, without=()):
    target = os.path.join(BUILD, profile)
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--target-dir", target]
    exe = [os.path.join(target, "debug" if profile == "dev" else profile, "rescan-mc")]
    triple = "x86_64-unknown-linux-gnu"
    if profile == "work":
        cmd = ["cargo", "build", "--offline", "--release", "-Zbuild-std=std,panic_unwind", "--target", triple, "--target-dir", target]
        exe = [os.path.join(target, triple, "release", "rescan-mc")]
    if profile == "asan":
        cmd = ["cargo", "build", "--offline", "--profile", "checked", "--target", triple, "--target-dir", target]
        exe = [os.path.join(target, triple, "checked", "rescan-mc")]
    if profile == "miri":
        # A run with no cases, so that it gets built.
        exe = ["cargo", "miri", "run", "--quiet", "--offline", "--target-dir", target, "--"]
        cmd = exe + ["C31-interpreted", "--limit", "0"]
    r = subprocess.run(
        cmd,
        cwd=HARNESS, env=env(profile, without), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600,
    )
    if r.returncode != 0:
        tail = "\n".join(l for l in r.stdout.splitlines() if not l.startswith("warning"))[-4000:]
        raise RuntimeError(f"build failed ({profile}):\n{tail}")
    return exe


def limits(profile):
    if profile not in ("asan", "miri"):
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgrp()


WITHOUT = []


def run(profile, exe, args, timeout):
    """Returns the exit status (negative: signal; None: timeout) and the output."""
    e = env(profile, WITHOUT) if profile in ("asan", "miri") else None
    p = subprocess.Popen(exe + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", preexec_fn=lambda: limits(profile), cwd=HARNESS, env=e)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def slots(path):
    """The cases that were being judged."""
    res = []
    try:
        data = open(path, "rb").read()
    except OSError:
        return res
    for i in range(0, len(data) - SLOT.size + 1, SLOT.size):
        fam, index, active = SLOT.unpack_from(data, i)
        if active:
            res.append((fam.rstrip(b"\0").decode(errors="replace"), index))
    return res


def known(prop):
    """The known findings of a property."""
    res = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.md")):
        m = re.match(r"known: property=(\S+) run=(\S+) build=(\S+) stack=(\d+) family=(\S+) index=(\d+) (.*)", line)
        if m and m[1] == prop:
            res.append({"run": m[2], "build": m[3], "stack": int(m[4]), "family": m[5], "index": int(m[6]), "what": m[7]})
    return res


UNDEFINED = re.compile(r"AddressSanitizer: |Undefined Behavior|unsafe precondition")
# Deaths that have nothing to do with invalid accesses.
DEFINED = re.compile(r"overflowed its stack|stack-overflow|out of memory|out-of-memory|allocation-size-too-big|rss limit|"
                     r"memory allocation of|does not end")


class Exploration:
    def __init__(self, prop, name, profile, stack, tier):
        self.prop, self.name, self.profile, self.stack, self.tier = prop, name, profile, stack, tier
        self.key = f"{name}-{profile}-{stack}"
        self.report = None
        self.violation = None
        self.error = None

    def args(self, *more):
        deaths = ["--deaths-only", "1"] if self.prop == "C31" else []
        return [self.name, "--tier", self.tier, "--stack", str(self.stack), *deaths, *more]

    def single(self, exe, family, index, prefix=False, timeout=200):
        """Judges one case in a process of its own; returns what is wrong."""
        more = ["--family", family, "--index", str(index), "--threads", "1"]
        if prefix:
            more += ["--prefix", "1"]
        rc, out = run(self.profile, exe, self.args(*more), timeout)
        m = re.search(r"^CASE (.*)$", out, re.M)
        case = m[1] if m else ""
        if rc == 0:
            return None
        if rc == 1 and "FOUND family=" in out:
            m = re.search(r"FOUND family=(\S*) index=(\d+)\n  case: (.*)\n  what: ((?:.|\n)*)", out)
            return {"family": m[1], "index": int(m[2]), "case": m[3], "what": m[4].strip()}
        if rc == 4 or rc is None:
            what = "does not end"
        else:
            lines = [l for l in out.splitlines() if l.strip() and not l.startswith("CASE")]
            last = [l for l in lines if UNDEFINED.search(l)][:2] or lines[-3:]
            what = f"the process dies (status {rc}): " + " | ".join(last)
        return {"family": family, "index": index, "case": case, "what": what}

    def explore(self, exe, threads):
        self.exe = exe
        out_file = os.path.join(BUILD, f"{self.key}.json")
        slot_file = os.path.join(BUILD, f"{self.key}.slots")
        for f in (out_file, slot_file):
            if os.path.exists(f):
                os.remove(f)
        timeout = 600 if self.tier == "quick" else 4 * 3600
        args = self.args("--threads", str(threads), "--out", out_file, "--slots", slot_file)
        rc, out = run(self.profile, exe, args, timeout)
        if rc in (0, 1) and os.path.exists(out_file):
            self.report = json.load(open(out_file))
            v = self.report["violation"]
            if v:
                v["prefix"] = False
                # Replay it alone; a case may also depend on the ones before.
                if not self.single(exe, v["family"], v["index"]):
                    v["prefix"] = bool(self.single(exe, v["family"], v["index"], True))
                self.violation = v
            return
        if rc == 5:
            self.error = f"no answer: {out[-500:]}"
            return
        # A crash, or a case that does not end.
        m = re.search(r"^HANG (\S+) (\d+)$", out, re.M)
        cands = [(m[1], int(m[2]))] if m else slots(slot_file)
        for prefix in (False, True):
            for family, index in cands:
                v = self.single(exe, family, index, prefix)
                if v:
                    v["prefix"] = prefix
                    self.violation = v
                    return
        # Nothing fails alone: does the whole exploration fail again?
        rc2, out2 = run(self.profile, exe, args, timeout)
        if rc2 is not None and rc2 < 0 and rc is not None and rc < 0:
            fam = cands[0][0] if cands else "?"
            self.violation = {"family": fam, "index": -1, "case": "the whole exploration", "prefix": False,
                              "what": f"the process dies (status {rc}, then {rc2}): {out2[-500:]}"}
            return
        if rc2 in (0, 1) and os.path.exists(out_file):
            self.report = json.load(open(out_file))
            self.violation = self.report["violation"]
            if self.violation:
                self.violation["prefix"] = False
            return
        self.error = f"no answer (status {rc}, then {rc2}): {out[-1500:]}"


class Monitored(Exploration):
    """With a monitor of the memory accesses."""

    def explore(self, exe, threads):
        super().explore(exe, threads)
        v = self.violation
        if v and (DEFINED.search(v["what"]) or not re.search(r"dies \(status (77|-4|-6|-7|-8|-11)", v["what"])):
            self.violation = None
            self.error = f"no answer: {v}"


class Interpreted(Exploration):
    """Interpreted by Miri, in several processes."""

    def explore(self, exe, threads):
        timeout = 780 if self.tier == "quick" else 4 * 3600
        # More processes than run at a time: what comes first in a process matters.
        shards = 3 * threads
        results = [None] * shards
        free = threading.Semaphore(threads)

        def shard(k):
            out_file = os.path.join(BUILD, f"{self.key}-{k}.json")
            if os.path.exists(out_file):
                os.remove(out_file)
            args = self.args("--threads", "1", "--trace", "1", "--shard", str(k), "--shards", str(shards), "--out", out_file)
            with free:
                results[k] = (*run("miri", exe, args, timeout), out_file)

        ts = [threading.Thread(target=shard, args=(k,)) for k in range(shards)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        report = {"families": [], "outcomes": {}, "samples": [], "states": 0, "states_capped": True, "executions": 0,
                  "skipped": 0, "transitions": 0, "violation": None}
        fams = {}
        for rc, out, out_file in results:
            if rc != 0:
                at = re.findall(r"^AT (\S+) (\d+)$", out, re.M)
                ub = re.search(r"^.*Undefined Behavior.*$", out, re.M)
                if ub and at:
                    self.violation = {"family": at[-1][0], "index": int(at[-1][1]), "case": "see the replay", "prefix": False,
                                      "what": ub[0][:1000]}
                else:
                    self.error = f"no answer (status {rc}): {out[-1500:]}"
                continue
            r = json.load(open(out_file))
            for f in r["families"]:
                g = fams.setdefault(f["name"], {**f, "executions": 0, "states": 0, "wall_s": 0})
                g["executions"] += f["executions"]
                g["states"] = max(g["states"], f["states"])
                g["wall_s"] = max(g["wall_s"], f["wall_s"])
            for k, n in r["outcomes"].items():
                report["outcomes"][k] = report["outcomes"].get(k, 0) + n
            for k in ("executions", "skipped", "transitions"):
                report[k] += r[k]
            report["states"] = max(report["states"], r["states"])
            report["samples"] = r["samples"]
        report["families"] = list(fams.values())
        self.report = report
        if self.violation:
            self.error = None


def exploration(prop, name, profile, stack, tier):
    kind = {"asan": Monitored, "miri": Interpreted}.get(profile, Exploration)
    return kind(prop, name, profile, stack, tier)


def replay_file(e, v):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{e.prop}-{e.profile}-{re.sub('[^a-z0-9-]', '', v['family'].lower())}-{v['index']}.json")
    args = e.args("--family", v["family"], "--index", str(v["index"]), *(["--prefix", "1"] if v.get("prefix") else []))
    json.dump({"property": e.prop, "build": e.profile, "hooks_left_out": WITHOUT, "args": args, **v,
               "how": f"{sys.argv[0]} --replay {path}"}, open(path, "w"), indent=1)
    return path


def replay(path):
    r = json.load(open(path))
    WITHOUT.extend(r.get("hooks_left_out", []))
    rc, out = run(r["build"], build(r["build"], WITHOUT), r["args"], 600)
    print(out)
    print("status", rc)
    return 0 if rc == 0 else 1


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build("checked")
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    started = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    runs = [exploration(prop, n, p, s, tier) for n, p, s in plan(prop)]
    profiles = list(dict.fromkeys(e.profile for e in runs))
    exes, errors = {}, []

    def make(p):
        try:
            exes[p] = build(p, WITHOUT)
        except Exception as ex:  # noqa
            errors.append(str(ex))

    def make_all():
        errors.clear()
        ts = [threading.Thread(target=make, args=(p,)) for p in profiles]
        [t.start() for t in ts]
        [t.join() for t in ts]

    make_all()
    if errors:
        try:
            WITHOUT.extend(left_out(prop))
        except Exception as ex:  # noqa
            errors.append(str(ex))
        if WITHOUT:
            make_all()
    if errors:
        print("\n".join(errors))
        print(f"ERROR: {prop}: the explorer cannot be built")
        return 2
    built = time.time()
    threads = os.cpu_count() or 8

    def go(e):
        try:
            e.explore(exes[e.profile], threads)
        except Exception as ex:  # noqa
            e.error = repr(ex)

    ts = [threading.Thread(target=go, args=(e,)) for e in runs]
    [t.start() for t in ts]
    [t.join() for t in ts]

    known_lines = []
    for k in known(prop):
        if k["build"] not in exes:
            exes[k["build"]] = build(k["build"], WITHOUT)
        e = exploration(prop, k["run"], k["build"], k["stack"], tier)
        if e.single(exes[k["build"]], k["family"], k["index"]):
            known_lines.append(k["what"])

    violations = [(e, e.violation) for e in runs if e.violation]
    reports = [(e, e.report) for e in runs if e.report]
    families, outcomes, samples = [], {}, []
    for e, r in reports:
        for f in r["families"]:
            families.append({"build": e.profile, "stack_kib": e.stack, **f})
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    if reports:
        samples = reports[0][1]["samples"]
    execs = sum(r["executions"] for _, r in reports)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0")),
        "level": "model_checking",
        "coverage": {
            "states": max([r["states"] for _, r in reports], default=0),
            "transitions": sum(r["transitions"] for _, r in reports),
            "traces_validated_against_impl": execs,
            "samples": samples,
            "exhaustive": bool(reports) and not violations and len(reports) == len(runs),
            "bounds": "every index of every family below was judged; a family is a finite, indexed set of cases (DESIGN.md)",
            "state_counting": "distinct observed results (hashed); a lower bound" if any(r["states_capped"] for _, r in reports)
            else "distinct observed results (hashed)",
            "builds": {e.profile: NOTES[e.profile] for e in runs},
            "families": families,
            "outcomes": outcomes,
            "indices_without_a_case": sum(r["skipped"] for _, r in reports),
            "hooks_left_out": WITHOUT,
            "build_s": round(built - started, 2),
        },
        "assumptions": [
            "the hooks (--cfg rescan_verif) report faithfully what the code has built",
            "the reference model (harness/src/refmodel.rs and the judges) states the property",
        ],
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
        "known_findings": known_lines,
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in known_lines:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for e, v in violations:
        path = replay_file(e, v)
        print(f"  build {e.profile}, family {v['family']}, index {v['index']}\n  case: {v['case']}\n  {v['what']}")
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    errors = [e.error for e in runs if e.error]
    if errors:
        print("\n".join(errors))
        return 2
    c = evidence["coverage"]
    print(f"{prop} holds: {execs} executions, {c['states']} states, {c['transitions']} transitions, "
          f"{evidence['wall_s']} s ({c['build_s']} s building)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
