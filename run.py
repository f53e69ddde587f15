#!/usr/bin/env python3
"""Runs the model-checking jobs of one property against /repo's working tree.

  python3 run.py <property> quick|thorough     check, write evidence/<property>.json
  python3 run.py --replay <file>               execute a recorded violation again, with a trace
  python3 run.py --list                        what is run for which property
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, HERE)
from jobs import PROPS, ASSUME  # noqa: E402

BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
WARN = ["-std=c++17", "-O2", "-w", "-fno-pie", "-no-pie"]


def binary_key(j):
    return "%s-%s-%s" % (j["engine"], j["flavour"], hashlib.sha1(json.dumps([j["cfg"], j.get("repairs")], sort_keys=True).encode()).hexdigest()[:8])


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


INT16 = ("int16", "tearh", "tearl")


class Skip(Exception):
    """this build is not possible for the present sources (int16 only: see harness/int16/retarget.py)"""


def build_lib(d, cfg, flavour, engine, repairs=()):
    over = " ".join("%s=%s" % kv for kv in sorted(cfg.items()))
    env = dict(os.environ, BOARD_EXAMPLES=os.path.join(REPO, "examples") if engine == "board_mc" else "", BOARD_REPAIRS=" ".join(repairs))
    rc, out = sh([os.path.join(HERE, "harness/build.sh"), SRC, d, over, flavour], env=env)
    if rc:
        raise (Skip if flavour in INT16 else RuntimeError)("building the library failed:\n" + out[-3000:])


def build_engine(d, engine, flavour):
    inc = open(os.path.join(d, "inc")).read().split()
    x = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize=enum"], "short": ["-fshort-enums", "-funsigned-char"], "packed": ["-fshort-enums", "-funsigned-char"], **{f: ["-fshort-enums", "-funsigned-char"] for f in INT16}}.get(flavour, [])
    if flavour.startswith("insn"):
        x = ["-DINSN"]
    rc, out = sh(["g++"] + WARN + x + inc + [os.path.join(HERE, "harness", engine + ".cpp"), os.path.join(d, "cfg.o"), os.path.join(d, "lib.o"), "-o", os.path.join(d, "run")])
    if rc:
        raise RuntimeError("building %s failed:\n%s" % (engine, out[-3000:]))
    if flavour.startswith("insn"):
        points(os.path.join(d, "run"))


def points(exe):
    """the addresses of the instructions of the library that access memory other than the stack, or call"""
    rc, out = sh(["objdump", "-d", "--no-show-raw-insn", "-j", "libtext", exe])
    with open(exe + ".pts", "w") as f:
        for l in out.splitlines():
            m = re.match(r"\s*([0-9a-f]+):\s+(.*)", l)
            if not m:
                continue
            t = re.sub(r"\s*[#<].*", "", m.group(2)).split(None, 1)
            op, args = t[0] if t else "", re.findall(r"(?:\([^)]*\)|[^,(])+", t[1]) if len(t) > 1 else []
            mem = any(a.strip()[:1] not in "$%" and "%rsp" not in a for a in args) and not op.startswith(("lea", "nop", "data16", "j"))
            if mem or op.startswith(("call", "rep")) or (op.startswith("jmp") and "*" in m.group(2)):
                f.write(m.group(1) + "\n")


def build_all(top, jobs, workers):
    keys = {}
    for j in jobs:
        keys.setdefault(binary_key(j), j)

    def one(k):
        j = keys[k]
        d = os.path.join(top, k)
        try:
            build_lib(d, j["cfg"], j["flavour"], j["engine"], j.get("repairs", ()))
        except Skip as e:
            return k, str(e)
        build_engine(d, j["engine"], j["flavour"])
        return None

    with cf.ThreadPoolExecutor(workers) as ex:
        return dict(r for r in ex.map(one, keys) if r)


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_job(top, out, prop, j, hard):
    name = "%s-%s" % (prop, j["name"])
    cmd = [os.path.join(top, binary_key(j), "run")] + j["opts"] + ["kinds=" + j["kinds"], "out=" + out, "name=" + name, "max_states=%d" % j["max_states"], "max_sec=%g" % j["max_sec"]]
    r = {"job": j, "stat": None, "viol": None, "sample": [], "err": None}
    for attempt in (0, 1):
        t0 = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=hard, preexec_fn=limits, cwd=out)
        except subprocess.TimeoutExpired:
            r["err"] = "the job did not end within %d s" % hard
            return r
        so = p.stdout.decode(errors="replace")
        se = p.stderr.decode(errors="replace")
        r["sec"] = time.time() - t0
        done = False
        r["stat"], r["viol"], r["sample"], r["err"] = None, None, [], None
        diverged = False
        for line in so.splitlines():
            if line.startswith("@STAT "):
                r["stat"] = json.loads(line[6:])
            elif line.startswith("@VIOL "):
                r["viol"] = json.loads(line[6:])
            elif line.startswith("@SAMPLE "):
                r["sample"].append(json.loads(line[8:]))
            elif line.startswith("@DONE"):
                done = True
            elif line.startswith("@DIVERGED"):
                diverged = True
        if r["viol"]:
            rep = r["viol"].get("replay")
            if rep and os.path.exists(rep):
                with open(rep, "a") as f:
                    f.write("\nbuild: %s\n" % json.dumps({"engine": j["engine"], "flavour": j["flavour"], "cfg": j["cfg"], "repairs": j.get("repairs", [])}))
                    if se.strip():
                        f.write("\nstandard error:\n" + se[:8000] + "\n")
            return r
        if done and p.returncode == 0 and r["stat"]:
            return r
        # a violation whose replay diverged, or an engine that died: try once more before believing it
        if diverged:
            path = os.path.join(out, name + ".txt")
            with open(path, "w") as f:
                f.write("kind: NONDETERMINISM\nwhat: a violation was observed whose exact repetition behaves differently\nargs: %s\nevents:\n\n%s\n" % (" ".join(j["opts"]), se[:8000]))
            r["viol"] = {"kind": "NONDETERMINISM", "what": "a violation was observed that does not repeat exactly: the behaviour depends on uninitialised memory", "replay": path}
        elif p.returncode < 0:
            path = os.path.join(out, name + ".txt")
            with open(path, "w") as f:
                f.write("kind: CRASH\nwhat: the library destroyed the process (signal %d)\nargs: %s\nevents:\n\n%s\n" % (-p.returncode, " ".join(j["opts"]), se[:8000]))
            r["viol"] = {"kind": "CRASH", "what": "the library destroyed the process that executes it (signal %d)" % -p.returncode, "replay": path}
        else:
            r["err"] = "engine failed (exit %d): %s" % (p.returncode, se[-1500:])
    return r


def known_findings():
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) job=(\S+) kind=(\S+) match=(.*?) -- (.*)", line.strip())
        if m:
            res.append(m.groups())
    return res


def check(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = P["jobs"](tier)
    names = [j["name"] for j in jobs]
    assert len(set(names)) == len(names), names
    workers = max(1, min(8, os.cpu_count() or 8))
    top = os.path.join(BUILD, "%s-%s" % (prop, tier))
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(REPLAYS, f))
    try:
        skip = build_all(top, jobs, workers)
        skipped = [j["name"] for j in jobs if binary_key(j) in skip]
        jobs = [j for j in jobs if binary_key(j) not in skip]
        hard = 800 if tier == "quick" else 7200
        order = sorted(jobs, key=lambda j: -j["weight"])
        with cf.ThreadPoolExecutor(workers) as ex:
            res = list(ex.map(lambda j: run_job(top, REPLAYS, prop, j, hard), order))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    known = [k for k in known_findings() if k[0] == prop]
    viols, errs, knowns = [], [], set()
    for r in res:
        if r["viol"]:
            for k in known:
                if k[1] == r["job"]["name"] and k[2] == r["viol"]["kind"] and k[3] in r["viol"]["what"]:
                    knowns.add(k[4])
                    break
            else:
                viols.append(r)
        if r["err"] and not r["viol"]:
            errs.append("%s: %s" % (r["job"]["name"], r["err"]))
    stats = [r for r in res if r["stat"]]

    def tot(k):
        return sum(int(r["stat"].get(k, 0)) for r in stats)

    obs = {}
    std = {"name", "states", "transitions", "settled", "depth", "preempted_calls", "points", "complete", "revalidated", "mismatch", "cut_other", "other", "sec"}
    for r in stats:
        for k, v in r["stat"].items():
            if k not in std and isinstance(v, int):
                obs[k] = obs.get(k, 0) + v
    samples = []
    for r in res:
        for s in r["sample"][:1]:
            samples.append({"job": r["job"]["name"], "case": s.get("events", "")[:1200]})
    samples = samples[:6]
    capped = [r["job"]["name"] for r in stats if not r["stat"]["complete"]]
    cov = {
        "states": tot("states"),
        "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("revalidated"),
        "samples": samples,
        "rule": "Every transition is an execution of the real library code compiled from /repo/src; states are deduplicated by a 128-bit hash of all static memory of the library plus the state of environment and reference monitor. traces_validated_against_impl counts recorded paths executed again from the initial state, whose final state was compared.",
        "states_with_liveness_check": tot("settled"),
        "preempted_calls": tot("preempted_calls"),
        "preemption_points": tot("points"),
        "max_depth": max([int(r["stat"]["depth"]) for r in stats] or [0]),
        "revalidation_mismatches": tot("mismatch"),
        "branches_cut_by_other_properties": tot("cut_other"),
        "observed": obs,
        "exhaustive": not capped and not errs and not viols and not skipped,
        "jobs": [{"name": r["job"]["name"], "engine": r["job"]["engine"], "build": r["job"]["flavour"], "config": r["job"]["cfg"], "options": " ".join(r["job"]["opts"]),
                  "states": r["stat"]["states"], "transitions": r["stat"]["transitions"], "depth": r["stat"]["depth"], "closed": r["stat"]["complete"], "sec": round(r["sec"], 2)} for r in stats],
        "capped_jobs": capped,
        "skipped_jobs": skipped,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "coverage": cov, "assumptions": ASSUME + P.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if skipped:
        print("not possible for the present sources: " + " ".join(skipped))
    print("%s %s: %d jobs, %d states, %d transitions, %d capped, %.1f s" % (prop, tier, len(jobs), cov["states"], cov["transitions"], len(capped), time.time() - t0))
    for r in viols:
        print("  %s: %s: %s" % (r["job"]["name"], r["viol"]["kind"], r["viol"]["what"][:600]))
    if viols:
        print("VIOLATION property=%s replay=%s" % (prop, viols[0]["viol"]["replay"]))
        return 1
    if errs:
        print("ERROR " + "\nERROR ".join(errs), file=sys.stderr)
        return 2
    return 0


def replay(path):
    txt = open(path).read()
    b = json.loads(re.search(r"^build: (.*)$", txt, re.M).group(1))
    args = re.search(r"^args: (.*)$", txt, re.M).group(1).split()
    events = re.search(r"^events: *(.*)$", txt, re.M).group(1).strip()
    d = os.path.join(BUILD, "replay-%d" % os.getpid())
    try:
        build_lib(d, b["cfg"], b["flavour"], b["engine"], b.get("repairs", ()))
        build_engine(d, b["engine"], b["flavour"])
        return subprocess.run([os.path.join(d, "run")] + args + ["replay=" + (events or " ")]).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        jobs = [dict(engine=e, flavour="plain", cfg={}) for e in ("master_mc", "slave_mc", "data_master", "data_slave", "both_mc", "e2e_mc", "data_e2e", "crc_enum", "init_enum", "board_mc")]
        top = os.path.join(BUILD, "setup")
        try:
            build_all(top, jobs, 4)
        finally:
            shutil.rmtree(top, ignore_errors=True)
        print("setup: the engines build against", REPO)
        return 0
    if a[:1] == ["--list"]:
        for p in sorted(PROPS):
            for tier in ("quick", "thorough"):
                print(p, tier)
                for j in PROPS[p]["jobs"](tier):
                    print("   ", j["name"], j["engine"], j["flavour"], j["cfg"], " ".join(j["opts"]), "kinds=" + j["kinds"])
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    if len(a) < 1 or a[0] not in PROPS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(a[0], tier)
    except RuntimeError as e:
        print("ERROR", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
