#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation.

    check.py PROP            run the check (VERIF_SEED, VERIF_TIER)
    check.py PROP --thorough the same with the long budget
    check.py --build-all     build every world for the current tree
    check.py --replay FILE   replay a recorded violation: exit 1 if it still violates, 0 if not

Environment: VERIF_REPO (default /repo) the tree to judge; VERIF_TIME seconds of exploration.
Exit: 0 held, 1 violated (line "VIOLATION property=<id> replay=<path>"), 2 the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
NCPU = max(1, len(os.sched_getaffinity(0)))
WORLDS = json.load(open(os.path.join(ROOT, "driver", "worlds.json")))

WRAPPED = """malloc free realloc calloc aligned_alloc posix_memalign memcpy memmove memset
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock
pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock
pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_once""".split()
SIM_FLAGS = ["-std=c++17", "-O2", "-g1", "-w"]
WORLD_FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-DNDEBUG", "-fno-builtin-memcpy", "-fno-builtin-memset",
               "-fno-builtin-memmove", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]


class CheckError(Exception):
    pass


class BuildError(CheckError):
    pass


def log(*a):
    print("#", *a, flush=True)


# ------------------------------------------------------------------ building

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def headers():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "include")):
        out += [os.path.join(d, f) for f in fs]
    return out


def call(cmd, what, err=CheckError):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise err("%s failed:\n%s" % (what, r.stdout[-6000:]))


def build_sim():
    src = [os.path.join(ROOT, "sim", f) for f in ("sim.cpp", "sim_omp.cpp", "sim.h", "sim_int.h")]
    d = os.path.join(BUILD, "sim-" + digest(src, " ".join(SIM_FLAGS)))
    objs = [os.path.join(d, "sim.o"), os.path.join(d, "sim_omp.o")]
    if all(map(os.path.exists, objs)):
        return objs
    os.makedirs(d, exist_ok=True)
    tmp = [o + ".%d" % os.getpid() for o in objs]

    def one(i):
        call(["g++", *SIM_FLAGS, "-c", src[i], "-o", tmp[i]], "compiling the simulator")
        # the simulator's own memcpy & co. do not pass through the hooks
        call(["objcopy"] + sum((["--redefine-sym", "%s=__real_%s" % (f, f)] for f in ("memcpy", "memset", "memmove")), [])
             + [tmp[i]], "objcopy")
        os.replace(tmp[i], objs[i])
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, range(2)))
    return objs


def build_world(world, mode, key=None):
    """Compile the harness of one world against the tree's headers; returns the binary."""
    src = os.path.join(ROOT, "harness", world + ".cpp")
    own = [os.path.join(ROOT, "harness", f) for f in os.listdir(os.path.join(ROOT, "harness")) if f.endswith(".h")]
    own += [os.path.join(ROOT, "sim", f) for f in os.listdir(os.path.join(ROOT, "sim"))]
    flags = WORLD_FLAGS + (["-fopenmp"] if mode == "team" else ["-fno-openmp"])
    d = os.path.join(BUILD, "%s-%s-%s" % (world, mode, digest(own + [src] + headers(), REPO + " ".join(flags))))
    exe = os.path.join(d, world)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, "%d.o" % os.getpid())
    call(["g++", *flags, "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3", "-c", src, "-o", obj],
         "compiling world %s (%s)" % (world, mode), BuildError)
    sim = build_sim()
    tmp = exe + ".%d" % os.getpid()
    call(["g++", "-no-pie", obj, *sim, *["-Wl,--wrap=" + w for w in WRAPPED], "-lpthread", "-o", tmp],
         "linking world %s (%s)" % (world, mode))
    os.remove(obj)
    os.replace(tmp, exe)
    return exe


def prune():
    """Keep the build folder small."""
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-40]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


# ------------------------------------------------------------------ running plans

RES = re.compile(r"RESULT cls=(\S+) hash=(\S+) il=(\S+) steps=(\d+) ndec=(\d+) msg=(.*)")


class Result:
    def __init__(self, m, decs=()):
        self.cls = "" if m.group(1) == "-" else m.group(1)
        self.hash, self.il, self.steps, self.msg = m.group(2), m.group(3), int(m.group(4)), m.group(6)
        self.decs = list(decs)


def run_plans(exe, texts, dec=False, tmpdir=None):
    """Run plans, each in its own simulated process, in a fresh driver process."""
    os.makedirs(tmpdir, exist_ok=True)
    files = []
    for i, t in enumerate(texts):
        p = os.path.join(tmpdir, "p%d.plan" % i)
        with open(p, "w") as f:
            f.write(t)
        files.append(p)
    env = dict(os.environ, SIM_CPU=str(os.getpid()))
    env.pop("SIM_DEC", None)
    if dec:
        env["SIM_DEC"] = "1"
    r = subprocess.run([exe, "plan", *files], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    out, cur = [], None
    for line in r.stdout.splitlines():
        m = RES.match(line)
        if m:
            cur = Result(m)
            out.append(cur)
        elif line.startswith("DEC ") and cur:
            _, op, step, tid = line.split()
            cur.decs.append((int(op), int(step), int(tid)))
    if len(out) != len(texts):
        raise CheckError("replay process ended early: " + r.stderr[-2000:])
    return out


def gen(exe, prop, seed):
    return subprocess.run([exe, "gen", prop, str(seed)], stdout=subprocess.PIPE, text=True, check=True).stdout


# plan text <-> structure

def parse(text):
    p = {"head": [], "cfg": {}, "ops": []}
    for line in text.splitlines():
        if line.startswith("cfg "):
            _, k, v = line.split()
            p["cfg"][k] = int(v)
        elif line.startswith("op "):
            w = line.split()
            op = {"name": w[1]}
            for t in w[2:]:
                k, v = t.split("=", 1)
                op[k] = v
            p["ops"].append(op)
        elif line.strip() and not line.startswith("#"):
            p["head"].append(line)
    return p


def unparse(p):
    s = list(p["head"])
    s += ["cfg %s %d" % kv for kv in sorted(p["cfg"].items())]
    for op in p["ops"]:
        s.append("op " + op["name"] + " " + " ".join("%s=%s" % (k, op[k]) for k in
                 ("seed", "cs", "team", "shrink", "mode", "fail", "nfail", "ww", "a", "dec")))
    return "\n".join(s) + "\n"


def clone(p):
    return {"head": list(p["head"]), "cfg": dict(p["cfg"]), "ops": [dict(o) for o in p["ops"]]}


def signature(cls, msg):
    """What makes two violations the same finding: class and message without numbers."""
    m = re.sub(r"0x[0-9a-f]+", "#", msg)
    m = re.sub(r"-?\d+(\.\d+)?([eE][-+]?\d+)?|\b-?nan\b|\binf\b", "#", m)
    return cls + ": " + m


def minimise(exe, text, want, deadline, tmpdir):
    """Greedy shrinking of one violating plan; same violation class and same oracle throughout."""
    def bad(ps):
        # index of the first candidate that still violates the same way
        for i in range(0, len(ps), 16):
            if time.time() > deadline:
                return None
            rs = run_plans(exe, [unparse(p) for p in ps[i:i + 16]], tmpdir=tmpdir)
            for j, r in enumerate(rs):
                if r.cls and r.cls == want.cls and (r.cls in ("race", "crash", "abort", "bad-access", "deadlock", "no-progress")
                                                   or signature(r.cls, r.msg) == signature(want.cls, want.msg)):
                    return i + j
        return None

    p = parse(text)
    changed = True
    while changed and time.time() < deadline:
        changed = False
        # drop runs of operations
        n = len(p["ops"])
        size = max(1, n // 2)
        while size >= 1 and time.time() < deadline:
            cands = []
            for i in range(0, len(p["ops"]), size):
                q = clone(p)
                del q["ops"][i:i + size]
                if q["ops"]:
                    cands.append(q)
            k = bad(cands)
            if k is not None:
                p, changed = cands[k], True
                size = min(size, max(1, len(p["ops"]) // 2))
            else:
                size //= 2
        # simplify faults, schedules and teams
        for i in range(len(p["ops"])):
            for key, vals in (("fail", ["-1"]), ("nfail", ["1"]), ("mode", ["0"]), ("shrink", ["0"]), ("team", ["1", "2", "3"]),
                              ("mode", ["0", "1"])):
                cur = p["ops"][i][key]
                cands = []
                for v in vals:
                    if v != cur and not (key in ("team", "mode") and int(v) >= int(cur)):
                        q = clone(p)
                        q["ops"][i][key] = v
                        cands.append(q)
                k = bad(cands) if cands else None
                if k is not None:
                    p, changed = cands[k], True
        # smaller configuration
        for key in sorted(p["cfg"]):
            v = p["cfg"][key]
            vals = [x for x in {0, 1, 2, v // 2, v - 1} if 0 <= x < v]
            if "seed" in key or not vals:
                continue
            cands = []
            for x in sorted(vals):
                q = clone(p)
                q["cfg"][key] = x
                cands.append(q)
            k = bad(cands)
            if k is not None:
                p, changed = cands[k], True
    # write the schedule out and shrink it
    r = run_plans(exe, [unparse(p)], dec=True, tmpdir=tmpdir)[0]
    q = clone(p)
    for i, op in enumerate(q["ops"]):
        ds = [(s, t) for (o, s, t) in r.decs if o == i]
        if op["mode"] != "0" or ds:
            op["mode"] = "9"
            op["dec"] = ",".join("%d:%d" % d for d in ds)
    if bad([q]) is not None:
        p = q
        for i, op in enumerate(p["ops"]):
            if op["mode"] != "9":
                continue
            size = max(1, len([x for x in op["dec"].split(",") if x]) // 2)
            while size >= 1 and time.time() < deadline:
                ds = [x for x in p["ops"][i]["dec"].split(",") if x]
                cands = []
                for k0 in range(0, len(ds), size):
                    q = clone(p)
                    q["ops"][i]["dec"] = ",".join(ds[:k0] + ds[k0 + size:])
                    cands.append(q)
                k = bad(cands) if cands else None
                if k is not None:
                    p = cands[k]
                else:
                    size //= 2
    return unparse(p)


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    """Lines 'known: property=<id> match=<regular expression> what=<text>' of /verif/known-findings.txt."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+match=(.*?)\s+what=(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


# ------------------------------------------------------------------ the check

def batch(exe, prop, seed0, stride, count, tl, out, cpu, env=None):
    e = dict(os.environ, SIM_CPU=str(cpu))
    e.pop("SIM_DEC", None)
    e.update(env or {})
    return subprocess.Popen([exe, "batch", prop, str(seed0), str(stride), str(count), str(tl), out],
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=e)


def read_hash(path):
    with open(path, "rb") as f:
        return list(struct.iter_unpack("<QQQ", f.read()))


def report(prop, text, exe, spec, res, work):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    body = "# property %s\n# world %s %s\n# violation %s\n# %s\n# hash %s\n# replay: %s --replay <this file>\n%s" % (
        prop, spec[0], spec[1], res.cls, res.msg, res.hash, os.path.join("driver", "check.py"), text)
    path = os.path.join(d, "%s-%s.plan" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(body)
    return path


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    spec = WORLDS[prop]
    budget = float(os.environ.get("VERIF_TIME", spec.get("quick_s", 24) if tier == "quick" else spec.get("thorough_s", 780)))
    log("property %s seed %d tier %s tree %s" % (prop, seed, tier, REPO))
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return check_(prop, t0, seed, tier, spec, budget, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_(prop, t0, seed, tier, spec, budget, work):
    exes = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fsim = ex.submit(build_sim)
        fsim.result()
        fs = [ex.submit(build_world, w, m) for w, m in spec["runs"]]
        errs = []
        for f in fs:
            try:
                exes.append(f.result())
            except CheckError as e:
                errs.append(e)
                exes.append(None)
    if errs:
        # the library is meant to be usable with OpenMP: code that compiles only without it breaks every property on threads
        for (w, m), e in zip(spec["runs"], exes):
            if m == "team" and e is None and all(isinstance(x, BuildError) for x in errs):
                build_world(w, "serial")
                text = "# property %s\n# world %s %s\n# violation does-not-compile\n%s\n" % (
                    prop, w, m, "\n".join("# " + x for x in str(errs[0]).splitlines()))
                os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
                path = os.path.join(ROOT, "replay", "%s-%s.plan" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
                open(path, "w").write(text)
                log("compiles without OpenMP but not with it:\n" + str(errs[0])[:1500])
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                return 1
        raise errs[0]
    log("built in %.1f s" % (time.time() - t0))
    known = known_findings(prop)
    totals, per, viols, samples = {}, [], [], []
    distinct, ils = set(), set()
    share = budget / len(exes)
    base = (seed * 1000003 + (7 if tier == "thorough" else 0)) % (1 << 40) * 1000000
    gate_runs = gate_bad = 0
    for k, exe in enumerate(exes):
        w, m = spec["runs"][k]
        b = base + k * 500000000
        t1 = time.time()
        ps = []
        for i in range(NCPU):
            out = os.path.join(work, "b%d-%d" % (k, i))
            ps.append((batch(exe, prop, b + i, NCPU, 1 << 40, share * 0.92, out, i), out))
        agg = {}
        for pr, out in ps:
            _, err = pr.communicate()
            if pr.returncode != 0 or not os.path.exists(out + ".json"):
                raise CheckError("worker of %s-%s ended with %s: %s" % (w, m, pr.returncode, err[-2000:]))
            for kk, v in json.load(open(out + ".json")).items():
                agg[kk] = agg.get(kk, 0) + v
            for line in open(out + ".viol"):
                s, cls, h, msg = line.rstrip("\n").split("\t", 3)
                viols.append((k, int(s), cls, h, msg))
        recs = {}
        for _, out in ps:
            for s, h, il in read_hash(out + ".hash"):
                recs[s] = (h, il)
                distinct.add(h)
                if il:
                    ils.add(il)
        wall = time.time() - t1
        per.append({"world": w, "build": m, "runs": agg["runs"], "seconds": round(wall, 2),
                    "runs_per_hour": int(agg["runs"] / wall * 3600)})
        for kk, v in agg.items():
            totals[kk] = totals.get(kk, 0) + v
        # determinism gate: the same seeds again, other processes, other worker count, other environment
        n = max(8, min(200, int(agg["runs"] * 0.04)))
        ps = []
        for i in range(3):
            out = os.path.join(work, "g%d-%d" % (k, i))
            ps.append((batch(exe, prop, b + i, 3, (n + 2) // 3, max(5.0, share * 0.5), out, i + 1, {"SIM_PAD": "x" * (17 * i)}), out))
        for pr, out in ps:
            pr.communicate()
            for s, h, il in read_hash(out + ".hash"):
                if s in recs:
                    gate_runs += 1
                    if recs[s] != (h, il):
                        gate_bad += 1
        # samples for the evidence file
        for s in (b, b + 1):
            if s in recs and len(samples) < 4:
                samples.append({"world": w, "build": m, "seed": s, "hash": "%016x" % recs[s][0], "plan": gen(exe, prop, s).splitlines()})
    ops = {kk[7:]: v for kk, v in totals.items() if kk.startswith("cnt:op:")}
    faults = {kk[4:]: v for kk, v in totals.items() if kk.startswith("cnt:fault:")}
    probes = {kk[4:]: v for kk, v in totals.items() if kk.startswith("cnt:") and not kk.startswith(("cnt:op:", "cnt:fault:"))}

    # ---- violations
    unlisted, listed = [], set()
    for v in viols:
        hit = [what for rx, what in known if rx.search(signature(v[2], v[4]))]
        if hit:
            listed.add(hit[0])
        else:
            unlisted.append(v)
    for what in [w for _, w in known]:
        print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
    rc, line, trouble = 0, None, None
    unlisted.sort(key=lambda v: (v[2] == "!harness", v[0], v[1]))
    for v in unlisted[:6]:
        k, s, cls, h, msg = v
        exe = exes[k]
        if cls == "!harness":
            trouble = trouble or "harness error on seed %d: %s" % (s, msg)
            continue
        text = gen(exe, prop, s)
        a = run_plans(exe, [text], tmpdir=os.path.join(work, "m"))[0]
        b2 = run_plans(exe, [text], tmpdir=os.path.join(work, "m"))[0]
        if not (a.cls == b2.cls == cls and a.hash == b2.hash == h):
            trouble = "violation on seed %d does not repeat exactly: %s %s / %s %s / %s %s" % (s, cls, h, a.cls, a.hash, b2.cls, b2.hash)
            continue
        log("violation on seed %d (%s): %s; minimising" % (s, cls, msg[:300]))
        small = minimise(exe, text, a, time.time() + (40 if tier == "quick" else 120), os.path.join(work, "m"))
        r1 = run_plans(exe, [small], tmpdir=os.path.join(work, "m"))[0]
        r2 = run_plans(exe, [small], tmpdir=os.path.join(work, "m"))[0]
        if not (r1.cls and r1.cls == r2.cls and r1.hash == r2.hash):
            small, r1 = text, a
        path = report(prop, small, exe, spec["runs"][k], r1, work)
        log("%s: %s" % (r1.cls, r1.msg[:500]))
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        rc = 1
        break
    if rc == 0 and trouble:
        raise CheckError(trouble)
    if rc == 0 and gate_bad:
        raise CheckError("determinism gate: %d of %d runs differ when repeated" % (gate_bad, gate_runs))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(totals["runs"]),
            "distinct_nontrivial": len(distinct),
            "rule": "one evaluation = one simulated run (one seed, one process): a generated plan of operations executed against "
                    "the real library under the simulator and compared with the reference after each operation. Distinct = "
                    "different hash over operations, schedule decisions, allocation sequence and observed results; "
                    "runs with an identical hash are counted once.",
            "samples": samples,
            "worlds": per,
            "runs_per_hour": int(totals["runs"] / max(1e-9, sum(x["seconds"] for x in per)) * 3600),
            "operations_checked": int(totals.get("ops", 0)),
            "operation_mix": ops,
            "simulated_time_steps": int(totals.get("steps", 0)),
            "simulated_time_note": "the library reads no clock; simulated time is counted in scheduler steps (memory accesses and runtime calls)",
            "context_switches": int(totals.get("switches", 0)),
            "parallel_regions": int(totals.get("regions", 0)),
            "distinct_interleavings": len(ils),
            "interleaving_measure": "hash of the sequence (operation, step, thread chosen, team size) of a run with a parallel region",
            "faults_injected": faults,
            "probes": probes,
            "determinism_gate": {"runs_repeated": gate_runs, "differences": gate_bad},
            "real_code": "all of include/GooseFEM used by the world, xtensor and Eigen, compiled from the tree",
            "stubbed": "OpenMP runtime, thread scheduling, heap, local-static guards",
        },
        "assumptions": spec.get("assumptions", []) + [
            "memory accesses of the instrumented code are the only scheduling points",
            "oracle references in /verif/harness are right",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if rc else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%d runs, %d distinct, %d interleavings, %d operations, gate %d/%d, %.1f s" % (
        totals["runs"], len(distinct), len(ils), totals.get("ops", 0), gate_runs - gate_bad, gate_runs, time.time() - t0))
    missing = [o for o in spec.get("must", []) if not (ops.get(o) or probes.get(o) or faults.get(o))]
    if rc == 0 and missing:
        raise CheckError("never exercised: " + ", ".join(missing))
    if line:
        print(line, flush=True)
    return rc


def replay(path):
    text = open(path).read()
    m = re.search(r"^# world (\S+) (\S+)", text, re.M)
    try:
        exe = build_world(m.group(1), m.group(2))
    except BuildError as e:
        if "# violation does-not-compile" in text:
            print("class=does-not-compile", str(e)[:300])
            return 1
        raise
    if "# violation does-not-compile" in text:
        return 0
    work = os.path.join(BUILD, "replay-%d" % os.getpid())
    try:
        r = run_plans(exe, ["\n".join(x for x in text.splitlines() if not x.startswith("#")) + "\n"], tmpdir=work)[0]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("class=%s hash=%s %s" % (r.cls or "-", r.hash, r.msg))
    return 1 if r.cls else 0


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--build-all":
        todo = sorted({tuple(x) for s in WORLDS.values() for x in s["runs"]})
        build_sim()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda wm: build_world(*wm), todo))
        prune()
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    return check(sys.argv[1])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        sys.exit(2)
