#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property by seeded search.

  check.py PROP              run the check (VERIF_SEED, VERIF_TIER)
  check.py --build           only build
  check.py --replay FILE     run a replay file again and print what it shows
"""
import collections
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TSYM_REPO", "/repo")
BUILD = os.environ.get("TSYM_SIM_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")
JOBS = 8

# Simulated runs of the quick tier; the thorough tier multiplies them.
QUICK = {"C01": 2400, "C02": 5600, "C03": 3600, "C04": 4400, "C05": 2000, "C06": 9000, "C07": 9600, "C08": 4800,
         "C09": 4400, "C10": 4400, "C11": 1500, "C12": 9600, "C13": 9000}
CAP = {"quick": 240.0, "thorough": 800.0}
FACTOR = {"quick": 1, "thorough": 18}

FLAGS = ["-std=c++17", "-g1", "-O1", "-DTSYM_SIM_HOOKS"]


# ------------------------------------------------------------------------------------------ build
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def build():
    """Objects are keyed by content, never by time stamps. Returns the path of the simulator."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    heads = [(os.path.relpath(h, REPO), read(h)) for d in ("include", "src") for h in tree(os.path.join(REPO, d), (".h", ".hpp", ".ipp", ".inc"))]
    head_key = sha(*[x for n, c in heads for x in (n, c)])
    sim_key = sha(*[x for h in tree(SIM, (".h",)) for x in (h, read(h))])
    version = subprocess.run(["g++", "--version"], capture_output=True).stdout
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include/tsym"), "-I" + os.path.join(REPO, "src")]
    jobs, objs = [], []
    for src in tree(os.path.join(REPO, "src"), (".cpp", ".cc", ".cxx")):
        objs.append((src, sha("lib", version, " ".join(FLAGS + inc), head_key, src, read(src))))
    for src in tree(SIM, (".cpp",)):
        objs.append((src, sha("sim", version, " ".join(FLAGS + inc), head_key, sim_key, src, read(src))))
    out = os.path.join(BUILD, "tsim-" + sha(*[k for _, k in objs]))
    if os.path.exists(out):
        return out
    for src, key in objs:
        if not os.path.exists(os.path.join(BUILD, "obj", key + ".o")):
            jobs.append((src, key))
    # the parser takes longest
    jobs.sort(key=lambda j: (0 if "parser" in j[0] else 1 if j[0].startswith(SIM) else 2))

    def compile_one(job):
        src, key = job
        obj = os.path.join(BUILD, "obj", key + ".o")
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + FLAGS + inc + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return src + "\n" + r.stderr[-4000:]
        os.replace(tmp, obj)
        return None

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        sys.stderr.write("cannot build the simulator from %s:\n%s\n" % (REPO, "\n".join(errs)))
        sys.exit(2)
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", "-o", tmp] + [os.path.join(BUILD, "obj", k + ".o") for _, k in objs] + ["-pthread"],
                       capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write("cannot link the simulator:\n%s\n" % r.stderr[-4000:])
        sys.exit(2)
    os.replace(tmp, out)
    # keep the cache small: drop simulators and objects of older trees
    keep = {k + ".o" for _, k in objs}
    objdir = os.path.join(BUILD, "obj")
    old = sorted((f for f in os.listdir(objdir) if f not in keep), key=lambda f: os.path.getmtime(os.path.join(objdir, f)))
    for f in old[:-300]:
        try:
            os.remove(os.path.join(objdir, f))
        except OSError:
            pass
    bins = sorted((f for f in os.listdir(BUILD) if f.startswith("tsim-") and os.path.join(BUILD, f) != out),
                  key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
    for f in bins[:-4]:
        try:
            os.remove(os.path.join(BUILD, f))
        except OSError:
            pass
    return out


# ------------------------------------------------------------------------------------------ one scenario
def scratch():
    d = os.path.join(BUILD, "scratch-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


COUNTER = [0]
LOCK = threading.Lock()


def judge(sim, prop, text, cpu=None):
    """Runs a scenario in a fresh process. Returns (journal, [violations])."""
    with LOCK:
        COUNTER[0] += 1
        path = os.path.join(scratch(), "s%d.txt" % COUNTER[0])
    with open(path, "w") as f:
        f.write(text)
    try:
        r = subprocess.run([sim, "judge", path, prop], capture_output=True, text=True, errors="replace",
                           timeout=(cpu or 300) + 60, env=dict(os.environ, SIM_CPU=str(cpu)) if cpu else None)
    except subprocess.TimeoutExpired:
        return None, []
    finally:
        os.unlink(path)
    journal, found = None, []
    for line in r.stdout.splitlines():
        if line.startswith("JOURNAL"):
            journal = line.split()[1]
        elif line.startswith("FOUND "):
            found.append(json.loads(line[6:]))
    return journal, found


def stem(cls):
    for suffix in ("-nested", "-at-fault", "-after-fault"):
        if cls.endswith(suffix):
            cls = cls[:-len(suffix)]
    return re.sub(r"-(at|after)-fault", "", cls)


# ------------------------------------------------------------------------------------------ minimisation
def minimise(sim, prop, text, cls, seconds):
    """Drops steps and faults while a violation of the same kind persists."""
    end = time.time() + seconds
    lines = text.splitlines()
    head, steps = lines[:2], lines[2:]
    want = stem(cls)

    def fails(cand, hd=None):
        _, found = judge(sim, prop, "\n".join((hd or head) + cand) + "\n")
        return any(stem(f["class"]) == want for f in found)

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        chunk = max(1, len(steps) // 2)
        while time.time() < end:
            progress = False
            i = 0
            while i < len(steps) and time.time() < end:
                cands = []
                for k in range(JOBS):
                    a = i + k * chunk
                    if a >= len(steps):
                        break
                    cands.append((a, steps[:a] + steps[a + chunk:]))
                res = list(ex.map(lambda c: fails(c[1]), cands))
                hit = [c for c, ok in zip(cands, res) if ok]
                if hit:
                    # several chunks may be removable together
                    ids = set()
                    for a, _ in hit:
                        ids.update(range(a, min(len(steps), a + chunk)))
                    both = [s for n, s in enumerate(steps) if n not in ids]
                    if len(hit) > 1 and fails(both):
                        steps = both
                    else:
                        steps = hit[0][1]
                    progress = True
                    i = max(0, hit[0][0])
                else:
                    i += chunk * len(cands)
            if chunk == 1 and not progress:
                break
            if chunk > 1:
                chunk = max(1, chunk // 2)
        # repetitions that are not needed
        for n in range(len(steps)):
            if not re.match(r"step \d+ soak\b", steps[n]):
                continue
            while time.time() < end:
                m = re.search(r" n=(\d+)", steps[n])
                v = int(m.group(1)) if m else 0
                sizes = sorted({v // 8, v // 4, v // 2, v * 3 // 4} - {0, v})
                if not sizes:
                    break
                cands = [(c, steps[:n] + [steps[n].replace(m.group(0), " n=%d" % c)] + steps[n + 1:]) for c in sizes]
                res = list(ex.map(lambda c: fails(c[1]), cands))
                hit = [c for c, ok in zip(cands, res) if ok]
                if not hit:
                    break
                steps = hit[0][1]
        # faults, nesting and threads that are not needed
        for pat in (r" allocfail=\S+", r" allocbig=\S+", r" quota=\S+", r" sink=\S+", r" cbthrow=\S+", r" t=\S+"):
            for n in range(len(steps)):
                if time.time() > end:
                    break
                c = re.sub(pat, "", steps[n])
                if c != steps[n]:
                    cand = steps[:n] + [c] + steps[n + 1:]
                    if fails(cand):
                        steps = cand
        # plain environment where it does not matter
        for key, val in (("placement", "1"), ("clock", "0"), ("memo", "1"), ("logger", "1"), ("holdall", "0"), ("fill", "165"), ("locale", "0")):
            if time.time() > end:
                break
            hd = [head[0], re.sub(r"\b%s=\S+" % key, "%s=%s" % (key, val), head[1])]
            if hd != head and fails(steps, hd):
                head = hd
    return "\n".join(head + steps) + "\n"


# ------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines "known: property=<id> class=<class> match=<regex over the minimised scenario> what=<text>"."""
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) class=(\S+) match=(\S+) what=(.*)", line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    except FileNotFoundError:
        pass
    return out


# ------------------------------------------------------------------------------------------ search
class Search:
    def __init__(self):
        self.runs, self.found, self.stats = {}, [], collections.Counter()
        self.ops, self.outcomes = collections.Counter(), collections.Counter()
        self.sets = {"INTERLEAVINGS": set(), "STATES": set(), "FAULTPOINTS": set()}
        self.lock = threading.Lock()
        self.first = None

    def feed(self, line):
        if line.startswith("RUN "):
            _, idx, journal, steps, order, fired, compared = line.split()
            with self.lock:
                self.runs[int(idx)] = (journal, int(steps), order, int(fired), int(compared))
        elif line.startswith("FOUND "):
            with self.lock:
                self.found.append(json.loads(line[6:]))
                if self.first is None:
                    self.first = time.time()
        elif line.startswith("STATS "):
            s = json.loads(line[6:])
            with self.lock:
                for k, v in s.items():
                    if isinstance(v, (int, float)):
                        self.stats[k] += v
                self.ops.update(s["ops"])
                self.outcomes.update(s["outcomes"])
        else:
            k = line.split(" ", 1)[0].strip()
            if k in self.sets:
                with self.lock:
                    self.sets[k].update(line.split()[1:])


def batch(sim, prop, seed, total, cap, workers=JOBS, start=0):
    s = Search()
    procs = []
    for w in range(workers):
        p = subprocess.Popen([sim, "batch", prop, str(seed), str(start + w), str(start + total), str(workers), str(cap)],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        t = threading.Thread(target=lambda p=p: [s.feed(l) for l in p.stdout], daemon=True)
        t.start()
        procs.append((p, t))
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.1)
        if s.first is not None and time.time() - s.first > 15:
            for p, _ in procs:
                if p.poll() is None:
                    p.kill()
    for p, t in procs:
        p.wait()
        t.join(10)
    s.abnormal = [p.returncode for p, _ in procs if p.returncode not in (0, -9)]
    return s


RULES = {
    "default": "One evaluation is one simulated run: a seeded workload of several clients, interleaved by the seeded scheduler, "
               "executed in a fresh forked process on the real library with the seeded environment and faults, then judged "
               "step by step against the same expressions evaluated fault-free, memo-free and first in a fresh process. ",
    "fault": "A run counts as distinct and non-trivial if at least one planned fault actually struck or nested call actually ran in it, at least one result was "
             "compared, and no other run has the same sequence of (operation, thread, outcome).",
    "history": "A run counts as distinct and non-trivial if at least two results were compared after other work had been done in the same process, "
               "and no other run has the same sequence of (operation, thread, outcome).",
}
FAULTY = {"C02", "C03", "C05", "C07"}

COMPONENTS = {
    "real": ["all of /repo/src (library code, asserts on)", "std::unordered_map memo tables behind the TSYM_SIM_HOOKS look-up seam",
             "standard library, boost"],
    "simulated": ["heap (operator new/delete): placement, failure, poison", "system/steady clock, time(), rand()",
                  "output streams and print engines", "loggers and std::cout", "matrix/vector accessors", "caller threads (one runs at a time, the scheduler picks)",
                  "caller-owned text buffers", "memo look-ups (forced misses)", "global locale"],
    "stubbed library parts": [],
}


def evidence(prop, tier, seed, s, wall, build_s, replays, violations, samples, search_s):
    st = s.stats
    nontrivial = set()
    for journal, steps, order, fired, compared in s.runs.values():
        if prop in FAULTY:
            if fired and compared:
                nontrivial.add(order)
        elif compared >= 2:
            nontrivial.add(order)
    n = len(s.runs)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(nontrivial),
        "rule": RULES["default"] + RULES["fault" if prop in FAULTY else "history"],
        "samples": samples,
        "runs_per_hour": round(n / search_s * 3600) if search_s else 0,
        "seeds": n,
        "steps_executed": int(st["steps"]),
        "results_compared": int(st["compared"]),
        "fresh_process_references": int(st["refRuns"]),
        "simulated_seconds_covered": int(st["simSeconds"]),
        "faults_injected": {
            "allocation failures (operations hit)": int(st["allocFired"]),
            "of these: several consecutive allocations": int(st["burstFired"]),
            "of these: memory quota": int(st["quotaFired"]),
            "of these: large blocks only": int(st["bigFired"]),
            "output sink failures": int(st["sinkFired"]),
            "exceptions from loggers, engines or accessors": int(st["cbFired"]),
            "calls back into the library from inside a callback": int(st["nestedRun"]),
            "forced misses of the memo tables": int(st["forcedMiss"]),
            "memo tables dropped": int(st["cacheClears"]),
            "logger replaced": int(st["loggerSwaps"]),
            "clock jumps": int(st["clockJumps"]),
            "thread switches": int(st["threadSwitches"]),
            "thread exits": int(st["threadExits"]),
        },
        "faults_planned_but_not_reached": int(st["allocPlanned"] - st["allocFired"] + st["sinkPlanned"] - st["sinkFired"]
                                              + st["cbPlanned"] - st["cbFired"] + st["nestedPlanned"] - st["nestedRun"]),
        "operations_that_survived_an_allocation_failure": int(st["allocSurvived"]),
        "distinct_interleavings": {"count": len(s.sets["INTERLEAVINGS"]), "measure": "sequence of (operation, thread, outcome) of a run"},
        "distinct_states": {"count": len(s.sets["STATES"]), "measure": "(operation, structural fingerprint of its result)"},
        "distinct_fault_points": {"count": len(s.sets["FAULTPOINTS"]), "measure": "(operation, number of the failing allocation / callback / byte)"},
        "operations": dict(s.ops),
        "outcomes": dict(s.outcomes),
        "discarded_steps": int(st["discardedSteps"]),
        "discarded_runs": int(st["discardedRuns"]),
        "steps_without_reference": int(st["noRef"]),
        "components": COMPONENTS,
        "determinism": replays,
        "build_s": round(build_s, 1),
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ["one thread runs at a time (the library documents no internal synchronisation)",
                           "the same code, run fault-free and first in a fresh process, defines the expected value",
                           "g++ -O1, asserts on, x86-64"],
           "wall_s": round(wall, 1), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


def main():
    t0 = time.time()
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        print(build())
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sim = build()
        text = "".join(l for l in open(sys.argv[2]) if not l.startswith("#"))
        m = re.search(r"\bprop=(\S+)", text)
        journal, found = judge(sim, m.group(1), text)
        print("journal", journal)
        for f in found:
            print("class=%s step=%s %s" % (f["class"], f["step"], f["detail"]))
        return 1 if found else 0
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in FACTOR:
        tier = "quick"
    sim = build()
    build_s = time.time() - t0
    total = int(os.environ.get("TSYM_SIM_RUNS", QUICK[prop] * FACTOR[tier]))
    print("%s: seed %d, %s tier, %d runs, built in %.0f s" % (prop, seed, tier, total, build_s), flush=True)
    t1 = time.time()
    s = batch(sim, prop, seed, total, CAP[tier])
    search_s = time.time() - t1
    if not s.runs and not s.found:
        sys.stderr.write("no run was completed (workers ended with %s)\n" % s.abnormal)
        return 2

    samples = []
    for idx in sorted(s.runs)[:400:133]:
        r = subprocess.run([sim, "dump", prop, str(seed), str(idx)], capture_output=True, text=True, errors="replace")
        lines = r.stdout.splitlines()
        samples.append({"index": idx, "scenario": lines[:45] + (["... %d more steps" % (len(lines) - 45)] if len(lines) > 45 else [])})

    # Same seed, other worker count, fresh processes: the journals must agree.
    replays = {"runs_repeated_with_another_worker_count": 0, "journals_that_differ": 0}
    if not s.found:
        again = batch(sim, prop, seed, min(total, 60 if tier == "quick" else 600), 60, workers=3)
        for idx, run in again.runs.items():
            if idx in s.runs:
                replays["runs_repeated_with_another_worker_count"] += 1
                if s.runs[idx][0] != run[0]:
                    replays["journals_that_differ"] += 1

    reported, knowns, unconfirmed, slow = [], [], [], 0
    classes = set()
    hangs = lambda f: f["class"] == "crash" and "ended with hang" in f["detail"]
    for f in sorted(s.found, key=lambda f: (hangs(f), f["index"])):
        if f["class"] in classes or len(reported) + len(knowns) >= 4:
            continue
        if reported and time.time() - t0 > 500:
            break
        # A run that only takes long is no finding: one that does not come back has to stay away with five
        # times the processor time as well.
        if hangs(f):
            if reported or slow >= 2 or not any("ended with hang" in x["detail"] for x in judge(sim, prop, f["scenario"], 200)[1]):
                slow += 1
                continue
        # gate: two further fresh processes must produce the same journal and the same class
        j1, f1 = judge(sim, prop, f["scenario"])
        j2, f2 = judge(sim, prop, f["scenario"])
        c1, c2 = {x["class"] for x in f1}, {x["class"] for x in f2}
        if j1 is None or (j1 != j2 and not hangs(f)) or f["class"] not in c1 or c1 != c2:
            unconfirmed.append(f)
            continue
        classes.add(f["class"])
        small = minimise(sim, prop, f["scenario"], f["class"], 60 if not reported else 20)
        j3, f3 = judge(sim, prop, small)
        if not any(stem(x["class"]) == stem(f["class"]) for x in f3):
            small, f3 = f["scenario"], f1
        hit = None
        for cls, rx, what in known_findings(prop):
            if cls == f["class"] and rx.search(small):
                hit = what
        if hit:
            knowns.append(hit)
            continue
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.txt" % (prop, seed, f["index"]))
        detail = next(x for x in f3 if stem(x["class"]) == stem(f["class"]))
        with open(path, "w") as out:
            out.write("# replay with: python3 %s --replay %s\n" % (os.path.join(HERE, "check.py"), path))
            out.write("# property %s, seed %d, run %d, journal %s\n# %s at step %s: %s\n" % (
                prop, seed, f["index"], j3, detail["class"], detail["step"], detail["detail"].replace("\n", " ")[:1500]))
            out.write(small)
        reported.append((path, detail, len(small.splitlines()) - 2))

    evidence(prop, tier, seed, s, time.time() - t0, build_s, replays, len(reported), samples, search_s)
    shutil.rmtree(scratch(), ignore_errors=True)
    print("%d runs, %d results compared, %d faults struck, %d distinct interleavings, %.0f s" % (
        len(s.runs), s.stats["compared"], s.stats["allocFired"] + s.stats["sinkFired"] + s.stats["cbFired"],
        len(s.sets["INTERLEAVINGS"]), time.time() - t0))
    for k in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for path, detail, n in reported:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s at step %s (%d steps after minimisation): %s" % (detail["class"], detail["step"], n, detail["detail"][:1000]))
    if reported:
        return 1
    if unconfirmed:
        sys.stderr.write("%d finding(s) could not be reproduced in a fresh process, first: run %d %s %s\n" % (
            len(unconfirmed), unconfirmed[0]["index"], unconfirmed[0]["class"], unconfirmed[0]["detail"][:500]))
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    finally:
        shutil.rmtree(os.path.join(BUILD, "scratch-%d" % os.getpid()), ignore_errors=True)
