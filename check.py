#!/usr/bin/env python3
"""Runs the check of one property:  check.py <property> [quick|thorough]
Replays one reported case:         check.py --replay <file>

Builds the needed variants of the harness from /repo's working tree, runs them, merges what they
report into evidence/<property>.json. Exit 0: held. 1: violated (VIOLATION line). Other: no answer."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
HOST = "x86_64-unknown-linux-gnu"

# variant: (crate, cargo arguments, target dir, output directory, extra environment)
def _v(crate, args, tdir, out, env=None):
    return (crate, args, tdir, out, env or {})
VARIANTS = {
    # features that ship by default; parallel regions run one after another, in order
    "def": _v("sched", ["--release", "--features", "adaptive"], "def", "release"),
    # the same with debug assertions
    "dbg": _v("sched", ["--profile", "dbg", "--features", "adaptive"], "def", "dbg"),
    # and with arithmetic overflow checks
    "chk": _v("sched", ["--profile", "chk", "--features", "adaptive"], "def", "chk"),
    # every region parallel, all schedules under control
    "sched": _v("sched", ["--release"], "sched", "release"),
    # every memory access recorded
    "race": _v("sched", ["--profile", "race", "--features", "race", "--target", HOST], "race", HOST + "/race",
               {"RUSTFLAGS": "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"}),
    # real builds of each feature set, with the real thread pool
    "serial": _v("mc", ["--release"], "serial", "release"),
    "par": _v("mc", ["--release", "--features", "par"], "par", "release"),
    "adaptive": _v("mc", ["--release", "--features", "adaptive"], "adaptive", "release"),
    "adaptonly": _v("mc", ["--release", "--features", "adaptive_only"], "adaptonly", "release"),
}
# property: [(variant, binary)]
PLAN = {
    "C01": [("def", "c01")], "C02": [("def", "c02")], "C03": [("def", "c03")],
    "C04": [("race", "c04race"), ("sched", "c04")],
    "C05": [("serial", "c05"), ("par", "c05"), ("adaptive", "c05"), ("adaptonly", "c05")],
    "C06": [("def", "c06")], "C07": [("def", "c07")],
    "C08": [("def", "c08"), ("dbg", "c08")],
    "C09": [("def", "c09")], "C10": [("def", "c10")],
    "C11": [("def", "c11"), ("chk", "c11")],
    "C12": [("def", "c12")], "C13": [("def", "c13")],
    "C14": [("def", "c14"), ("chk", "c14")],
    "C15": [("def", "c15")], "C16": [("def", "c16")],
    "C17": [("def", "c17"), ("chk", "c17")],
    "C18": [("chk", "c18")],
    "C19": [("def", "c19")], "C20": [("def", "c20")],
    "C21": [("def", "c21"), ("serial", "c21")],
    "C22": [("def", "c22")],
    "C23": [("sched", "c23"), ("def", "c23"), ("par", "c23")],
    "C24": [("def", "c24")],
    "C25": [("def", "c25")],
    "C26": [("def", "c26")],
    "C27": [("def", "c27")],
}
ASSUMPTIONS = {
    "*": ["the frozen copy of the C++ reference in /verif/oracle is the GFWX format",
          "64 bit little endian target; the compiler and standard library are trusted",
          "contents and shapes beyond the enumerated bounds behave like those within"],
    "C04": ["parallel regions are started through rayon's par_bridge (a region started in another way fails the build of the harness or runs as ordinary code)",
            "tasks without conflicting accesses commute, so orders of whole tasks stand for all interleavings"],
    "C05": ["with the real thread pool the schedules are those the pool produces; C04 enumerates schedules"],
    "C23": ["an operation that waits can only run others at the scheduling points of its parallel regions",
            "the operations of the alphabet stand for all; with the real pool (joined, all-at-once) schedules are those the pool produces, the other sections enumerate"],
    "C07": ["inside a level the reported position is only a guess (as in the reference); it is checked at ends of levels"],
    "C08": ["arithmetic wraps as in the release configuration; small images"],
}


def fail(msg, out=""):
    print("CHECK ERROR: " + msg)
    if out:
        print(out[-6000:])
    sys.exit(2)


def build(variant, binary):
    crate, args, tdir, outdir, env = VARIANTS[variant]
    cargo = ["cargo"] + (["+nightly"] if variant == "race" else []) + ["build", "--offline", "--bin", binary,
             "--target-dir", os.path.join(TARGET, tdir)] + args
    e = dict(os.environ, CARGO_NET_OFFLINE="true", **env)
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    if "RUSTFLAGS" not in env:
        e.pop("RUSTFLAGS", None)
    p = subprocess.run(cargo, cwd=os.path.join(HERE, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        fail("build of %s (%s) failed" % (binary, variant), p.stdout)
    return os.path.join(TARGET, tdir, outdir, binary)


def run(variant, binary, exe, tier, part, only=None):
    if os.path.exists(part):
        os.unlink(part)
    cmd = [exe, "--tier", tier, "--out", part, "--variant", variant, "--known", os.path.join(HERE, "known-findings.txt"),
           "--replay-dir", os.path.join(HERE, "replay")]
    if only:
        cmd += ["--only", only]
    p = subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    violations = 0
    for line in p.stdout:
        sys.stdout.write(line)
        sys.stdout.flush()
        if line.startswith("VIOLATION "):
            violations += 1
    return p.wait(), violations


def main():
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        text = open(sys.argv[2]).read()
        f = dict(re.findall(r"^(property|variant|tier|case)=(.*)$", text, re.M))
        binary = next(b for v, b in PLAN[f["property"]] if v == f["variant"])
        exe = build(f["variant"], binary)
        rc, n = run(f["variant"], binary, exe, f["tier"], os.path.join(HERE, "evidence", "replay.part"), f["case"])
        sys.exit(rc if rc in (0, 1) else 2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    parts, bad = [], 0
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    exes = [(v, b, build(v, b)) for v, b in PLAN[prop]]
    built = time.time()
    for variant, binary, exe in exes:
        part = os.path.join(HERE, "evidence", "%s.%s.%s.part" % (prop, binary, variant))
        rc, n = run(variant, binary, exe, tier, part)
        if rc == 1 and n:
            bad += n
        elif rc != 0:
            fail("%s (%s) ended with status %s" % (binary, variant, rc))
        if os.path.exists(part):
            parts.append(json.load(open(part)))
            os.unlink(part)
        elif rc == 0:
            fail("%s (%s) left no evidence" % (binary, variant))
        # a case that crashed or hung ends the process before its evidence is written
    s = lambda k: sum(p[k] for p in parts)
    counters = {}
    for p in parts:
        for k, v in p["counters"].items():
            counters[k] = counters.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": s("states"), "transitions": s("transitions"), "traces_validated_against_impl": s("traces"),
            "distinct_outcomes_at_least": s("distinct_outcomes"),
            "exhaustive": bad == 0,
            "meaning": "states: distinct cases (input x configuration x schedule or cut) executed; transitions: calls into the implementation "
                       "(for C04's recorder: recorded memory accesses); traces: predictions of the model or reference compared with the implementation",
            "sections": ["%s %s" % (p["variant"], x) for p in parts for x in p["sections"]],
            "counters": counters,
            "samples": [x for p in parts for x in p["samples"]][:40],
            "variants": [v for v, _ in PLAN[prop]],
        },
        "assumptions": ASSUMPTIONS["*"] + ASSUMPTIONS.get(prop, []),
        "known_findings_seen": sorted({k for p in parts for k in p["known"]}),
        "wall_s": round(time.time() - t0, 3), "build_s": round(built - t0, 3), "violations": bad,
    }
    if not ev["coverage"]["samples"]:
        ev["coverage"]["samples"] = ["no sample recorded"]
    tmp = ev_path + ".tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, ev_path)
    print("%s %s: %s, %d states, %d calls, %.1f s (build %.1f s)" % (prop, tier, "VIOLATED" if bad else "held on everything explored",
          ev["coverage"]["states"], ev["coverage"]["transitions"], ev["wall_s"], ev["build_s"]))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
