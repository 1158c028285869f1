#!/usr/bin/env python3
"""Runs the simulation check of one property.

  check.py setup              build the simulators
  check.py C01                check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C01 thorough
  check.py C01 replay FILE    run one replay file and show its event log
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.path.join(VERIF, "build", "replays")
WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))

SIM = {"C11": "simsched", "C12": "simsched"}
# runs (upper bound), wall seconds (upper bound) of the search
QUICK = (60000, 60)  # runs, seconds
THOROUGH = (2000000, 600)

REAL = ["dictionary", "dictionary_manager", "iconv wrapper", "language", "log", "plural_forms", "po_parser", "tinygettext", "unix_file_system"]


def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def tree_key():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "sim")):
        for d, dirs, names in os.walk(base):
            dirs.sort()
            files += [os.path.join(d, n) for n in names if n.endswith((".cpp", ".hpp", ".h", ".c", ".inc", "Makefile"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(target):
    """Builds the simulator from the working tree; the place is named after the sources, so nothing stale is ever used."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_key()
        out = os.path.join(BUILD, key)
        exe = os.path.join(out, target)
        if not os.path.exists(exe):
            for old in sorted((e for e in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{20}", e) and e != key),
                              key=lambda e: os.path.getmtime(os.path.join(BUILD, e)))[:-2]:
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
            r = subprocess.run(["make", "-s", "-j", str(WORKERS), "-C", os.path.join(VERIF, "sim"), target, "R=" + REPO, "B=" + out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                fail("the simulator does not build:\n" + r.stdout[-4000:])
        return exe


def env(scratch):
    e = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD", "LANGUAGE"):
        e.pop(k, None)
    e.update({"SIM_SCRATCH": scratch, "LC_ALL": "C", "TZ": "UTC"})
    return e


def known_findings(prop):
    """Lines 'finding: property=<id> <regular expression for "kind message">'"""
    found = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) (.+)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                found.append(m.group(2))
    return found


def json_out(args, scratch, timeout):
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(scratch), timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode != 0:
        fail("%s: exit %d\n%s" % (" ".join(args[1:]), r.returncode, r.stderr.decode(errors="replace")[-2000:]))
    return r.stdout.decode()


def replay(exe, path, scratch):
    out = json_out([exe, "replay", path], scratch, 200)
    return json.loads(out) if out else None


def determinism(exe, prop, seed, n, scratch):
    """The same seeds in several processes, in another order and grouping, must give the same event logs."""
    def collect(workers):
        ps = [subprocess.Popen([exe, "hashes", prop, str(seed), str(i), str(n), str(workers)], stdout=subprocess.PIPE, env=env(scratch)) for i in range(workers)]
        got = {}
        for p in ps:
            out, _ = p.communicate()
            if p.returncode != 0:
                fail("hashes: exit %d" % p.returncode)
            for line in out.decode().splitlines():
                k, v = line.split()
                got[int(k)] = v
        return got
    a, b = collect(WORKERS), collect(3)
    for k in list(a)[:12]:  # and so must the written-down form of a run
        text = json_out([exe, "gen", prop, str(seed), str(k)], scratch, 200)
        path = os.path.join(scratch, "determinism.scenario")
        with open(path, "w") as f:
            f.write(text or "")
        r = replay(exe, path, scratch)
        if not r or "%x" % int(r["hash"]) != a[k]:
            b[k] = None
    return [k for k in a if a[k] != b.get(k)], len(a)


def search(exe, prop, seed, first, runs, limit, scratch):
    ps = []
    for w in range(WORKERS):
        out = open(os.path.join(scratch, "batch%d" % w), "w+")
        ps.append((out, subprocess.Popen([exe, "batch", prop, str(seed), str(first + w), str(runs), str(WORKERS), str(limit)], stdout=out,
                                         stderr=subprocess.PIPE, env=env(scratch))))
    results = []
    for out, p in ps:
        _, err = p.communicate()
        if p.returncode != 0:
            fail("batch: exit %d: %s" % (p.returncode, err.decode(errors="replace")[-2000:]))
        out.seek(0)
        results.append(json.load(out))
    return results


def main():
    if len(sys.argv) < 2:
        fail("which property?")
    prop = sys.argv[1]
    if prop == "setup":
        for t in sorted(set(["simfault"]) | (set(SIM.values()) if os.path.exists(os.path.join(VERIF, "sim", "sched.cpp")) else set())):
            build(t)
        return 0
    exe = build(SIM.get(prop, "simfault"))
    scratch = tempfile.mkdtemp(prefix="simcheck.", dir="/tmp")
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "replay":
            subprocess.run([exe, "replay", sys.argv[3], "trace"], env=env(scratch))
            return 0
        return check(exe, prop, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def confirm(exe, prop, seed, v, scratch):
    """Repeats, minimises and replays a violation; returns (path, verdict) or None if it is not reproducible."""
    os.makedirs(REPLAYS, exist_ok=True)
    raw = os.path.join(scratch, "raw.scenario")
    with open(raw, "w") as f:
        f.write(v["scenario"])
    again = replay(exe, raw, scratch)
    if not again or not again["violation"] or again["kind"] != v["kind"] or again["hash"] != v["hash"]:
        print("not reproduced: %s: %s" % (v["kind"], v["msg"]), file=sys.stderr)
        return None
    small = json_out([exe, "min", raw, "1500", "40"], scratch, 300) or v["scenario"]
    path = os.path.join(REPLAYS, "%s-%s.replay" % (prop, v["seed"]))

    def store(text, verdict):
        with open(path, "w") as f:
            f.write("# property %s, VERIF_SEED %d, run %d, run seed %s\n# %s: %s\n" %
                    (prop, seed, v["index"], v["seed"], verdict["kind"], " ".join(verdict["msg"].split())))
            f.write(text)
    store(small, v)
    a = replay(exe, path, scratch)
    b = replay(exe, path, scratch)
    if not (a and b and a["violation"] and a["kind"] == v["kind"] and b["violation"] and a["hash"] == b["hash"] and a["kind"] == b["kind"]):
        store(v["scenario"], v)  # the full one does reproduce
        a = replay(exe, path, scratch)
        if not a or not a["violation"] or a["hash"] != v["hash"]:
            return None
        small = v["scenario"]
    store(small, a)
    return path, a


def check(exe, prop, scratch):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        fail("unknown tier " + tier)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    runs, limit = QUICK if tier == "quick" else THOROUGH
    limit = float(os.environ.get("SIM_LIMIT", limit))
    if os.environ.get("SIM_RUNS"):
        runs = int(os.environ["SIM_RUNS"])
    print("VERIF_SEED=%d tier=%s property=%s" % (seed, tier, prop), flush=True)

    differing, compared = determinism(exe, prop, seed, 64 if tier == "quick" else 640, scratch)

    t1 = time.time()
    known = known_findings(prop)
    reported_known = set()
    results = search(exe, prop, seed, 0, runs, limit, scratch)
    bad = [r["violation"] for r in results if "violation" in r]
    bad.sort(key=lambda v: (v["index"]))
    search_s = max(0.001, time.time() - t1)
    violation = None
    unreproducible = 0
    for v in bad:
        hit = [k for k in known if re.search(k, v["kind"] + " " + v["msg"])]
        if hit:
            reported_known.update(hit)
            continue
        c = confirm(exe, prop, seed, v, scratch)
        if c:
            violation = (v, c)
            break
        unreproducible += 1
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    total = sum(r["runs"] for r in results)
    counters = {}
    hashes = set()
    cov = bytearray(len(results[0]["cov"]) // 2)
    for r in results:
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        hashes.update(r["hashes"])
        for i, b in enumerate(bytes.fromhex(r["cov"])):
            cov[i] |= b
    nontrivial = min(len(hashes), sum(r["nontrivial"] for r in results))
    sched = SIM.get(prop) == "simsched"
    slow = max(results, key=lambda r: r["slowest"])
    steps = sum(r["steps"] for r in results)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": nontrivial,
            "rule": ("One run = one seed: a generated program of caller threads whose every step is ordered by the seeded scheduler. Non-trivial: at least one "
                     "switch between threads inside the library; distinct: another event log (schedule and results)." if sched else
                     "One run = one seed: generated catalogues, disk, history of calls and faults, executed against the real library with the properties checked "
                     "during the run. Non-trivial: a fault fired or more than two operations ran; distinct: another event log (operations, disk accesses, faults fired, "
                     "messages, allocations, results)."),
            "samples": [r["sample"][:3000] for r in results[:2]],
            "runs_per_hour": int(total / search_s * 3600),
            "seeds_per_hour": int(total / search_s * 3600),
            "distinct_event_logs": len(hashes),
            "simulated_time": "no clock in the system under test; measured in steps",
            "steps_simulated": steps,
            "operations": sum(r["ops"] for r in results),
            "largest_share_of_step_bound": max(r["peak"] for r in results) / 1000.0,
            "slowest_run_s": round(slow["slowest"], 3),
            "slowest_run": slow["slowest_index"],
            "allocations_seen": sum(r["allocs"] for r in results),
            "program_points_reached": sum(bin(b).count("1") for b in cov),
            "faults_fired": {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("fault.")},
            "rare_conditions_hit": {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("probe.")},
            "other_counts": {k: n for k, n in sorted(counters.items()) if not k.startswith(("fault.", "probe."))},
            "determinism": {"seeds_run_twice": compared, "diverging": len(differing)},
            "real_code": REAL + (["threads (real, parked and released one at a time)", "glibc iconv"] if sched else ["glibc iconv", "libstdc++ iostreams and filesystem"]),
            "stubs": (["scheduler, mutexes, once and static-initialisation guards", "disk (in-memory file system)", "log sink", "allocator front end"] if sched else
                      ["disk contents behind FileSystem or behind libc open/read/readdir (with fault injection)", "allocator front end", "iconv_open front end", "log callbacks"]),
        },
        "assumptions": [
            "glibc, libstdc++ and libiconv behave as specified when no fault is injected into them",
            "sampling: a clean batch is evidence for the seeds run, not a proof",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if sched:
        evidence["coverage"]["distinct_interleavings"] = counters.get("distinct_schedules", len(hashes))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if violation:
        v, (path, a) = violation
        print("run %d (seed %s): %s: %s" % (v["index"], v["seed"], a["kind"], a["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if unreproducible:
        fail("%d violation(s) that do not replay" % unreproducible)
    if differing:
        fail("runs %s are not repeatable" % differing[:10])
    print("%s held: %d runs, %d distinct event logs, %d steps, %.0f s" % (prop, total, len(hashes), steps, time.time() - t0))
    return 0


sys.exit(main())
