"""Seeded search over schedules and fault sequences, minimisation, replay files, evidence."""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import sys
import time
import traceback

from . import sim

VERIF = sim.VERIF
NPROC = int(os.environ.get("WSIM_JOBS", "8"))
KNOWN = os.path.join(VERIF, "known-findings.json")
COMPONENTS = {
    "real": "the whole weaver binary built from /repo's working tree: CLI, resolver, forge, checker, live-check, OTLP "
            "receiver (tonic/hyper/axum), tokio and rayon runtimes, ureq client, gix/zip/tar readers, std I/O",
    "simulated": "thread scheduler (one runnable thread at a time, seeded), futex/pthread blocking, clocks and timers, "
                 "entropy, directory order, sockets/epoll/eventfd/DNS, signals, file-system faults and crashes",
    "stub": "peers only: OTLP clients and collectors, HTTP file servers, admin/API clients, MCP client",
}


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "big")


class Outcome:
    def __init__(self):
        self.viol = []          # (key, message)
        self.results = []       # sim.Result
        self.nontrivial = True
        self.cover = []         # coverage tags
        self.skip = None

    def fail(self, key, msg):
        self.viol.append((key, msg))


# ------------------------------------------------------------------ schedules
def sched(rng, perturb=True, net=False, heavy=False):
    """A seeded schedule: how threads, timers, entropy, directory order and benign I/O behave."""
    p = {"seed": rng.randrange(1, 1 << 40), "hashseed": rng.randrange(1, 1 << 40), "ncpu": rng.choice([1, 2, 3, 4, 4, 8]),
         "readdir": rng.choice([0, 1, 1, 1, 2])}
    m = rng.random()
    if m < 0.1:
        p["mode"] = 0
    elif m < 0.7:
        p["mode"] = 1
        p["pswitch"] = rng.choice([5, 20, 80, 200, 500])
        p["malloc"] = rng.choice([0, 2000, 500, 100] if not heavy else [0, 5000, 1000])
    else:
        p["mode"] = 2
        p["pct"] = sorted(rng.randrange(1, rng.choice([60, 400, 3000])) for _ in range(rng.randrange(1, 5)))
        p["malloc"] = rng.choice([0, 2000, 500])
    if perturb:
        if rng.random() < 0.3:
            p["spurious"] = rng.choice([5, 30])
        if rng.random() < 0.3:
            p["shortio"] = rng.choice([20, 200])
        if rng.random() < 0.3:
            p["eintr"] = rng.choice([10, 100])
    if net:
        p["chunk"] = rng.choice([0, 0, 1, 1, 2])
        lo, hi = rng.choice([(50, 400), (1, 5), (100, 20000), (10, 200000)])
        p["latency_us"] = [lo, hi]
        if rng.random() < 0.15:
            p["jumps"] = [[rng.randrange(100, 200000), rng.choice([-3600, -5, 5, 3600, 86400]) * 1000000]]
    return p


def stall(rng):
    """A thread of weaver that gets no time, or a standard output nobody reads, for a while."""
    t0 = rng.choice([rng.randrange(0, 3000), rng.randrange(0, 60000), rng.randrange(0, 2000000)])
    return [rng.choice([-1, 0, 0, 1, 1, 2, 3]), t0, t0 + rng.choice([1000, 20000, 300000, 3000000])]


def thawed(plan):
    """When the last stall of a plan ends (ns)."""
    return max([f[2] * 1000 for f in plan.get("freeze", [])] + [0])


QUIET = {"seed": 1, "hashseed": 1, "mode": 0, "ncpu": 1, "readdir": 0}


def calm(**kw):
    d = dict(QUIET)
    d.update(kw)
    return d


# ------------------------------------------------------------------ property base
class Prop:
    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    stub = COMPONENTS["stub"]
    quick_s = 30
    thorough_s = 600
    wall = 60
    snap = True

    def __init__(self):
        self.cache = collections.OrderedDict()

    def case(self, rng, tier, idx):
        raise NotImplementedError

    def run(self, slot, case):
        raise NotImplementedError

    def shrink(self, case):
        """Property-specific smaller candidates (after the generic ones)."""
        return []

    def describe(self, case):
        return case.get("meta", {})

    # -- helpers
    def exec(self, slot, case, out=None, trace=False):
        sc = case["sc"]
        if trace:
            sc = sim.clone(sc)
            for st in sc["steps"]:
                st["plan"]["trace"] = 1
        rs = sim.run_scenario(slot, sc, self.wall, self.snap)
        if out is not None:
            out.results.extend(rs)
            for r in rs:
                if r.special == "INTERNAL":
                    out.skip = "internal"
        return rs

    def ref(self, slot, key, sc, wall=None):
        """Reference execution (calm schedule), cached per workload."""
        k = hashlib.sha256((key + json.dumps(sc, sort_keys=True)).encode()).hexdigest()
        if k not in self.cache:
            self.cache[k] = sim.run_scenario(slot, sc, wall or self.wall, self.snap)
            while len(self.cache) > 200:
                self.cache.popitem(last=False)
        return self.cache[k]


def load(pid):
    return importlib.import_module("wsim.props." + pid.lower()).PROP


def unresolvable(prop, slot, case, out, r):
    """The server r of a case did not start: whether its registry does not resolve either, a violation otherwise."""
    q = prop.ref(slot, "resolves", {"files": case["sc"]["files"], "steps": [{"argv": ["registry", "resolve", "-r", "reg", "--v2"], "plan": calm()}]})[0]
    if q.rc == 0:
        out.fail("start", "the registry resolves, but the server does not start: %s" % r.text("err")[-500:])
        out.results.append(r)
        return False
    return True


def safe_run(prop, slot, case):
    return prop.run(slot, case)


# ------------------------------------------------------------------ minimisation
def cands_generic(case):
    """Smaller cases: fewer faults, calmer knobs, fewer actors, fewer files."""
    steps = case["sc"]["steps"]
    for i, st in enumerate(steps):
        p = st["plan"]
        for j in range(len(p.get("faults", []))):
            c = sim.clone(case)
            del c["sc"]["steps"][i]["plan"]["faults"][j]
            yield "drop fault", c
        for k in ("spurious", "shortio", "eintr", "chunk", "jumps", "partitions", "freeze", "malloc", "sndbuf"):
            if p.get(k):
                c = sim.clone(case)
                c["sc"]["steps"][i]["plan"].pop(k)
                yield "drop " + k, c
        if p.get("readdir", 0):
            c = sim.clone(case)
            c["sc"]["steps"][i]["plan"]["readdir"] = 0
            yield "sorted dirs", c
        if p.get("ncpu", 1) > 1:
            c = sim.clone(case)
            c["sc"]["steps"][i]["plan"]["ncpu"] = 1
            yield "one cpu", c
        if p.get("mode", 1) in (1, 2):
            c = sim.clone(case)
            q = c["sc"]["steps"][i]["plan"]
            q["mode"] = 0
            q.pop("malloc", None)
            yield "default schedule", c


def cands_devs(case):
    for i, st in enumerate(case["sc"]["steps"]):
        p = st["plan"]
        if p.get("mode") != 3:
            continue
        devs = p.get("devs", [])
        n = len(devs)
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                c = sim.clone(case)
                c["sc"]["steps"][i]["plan"]["devs"] = devs[:s] + devs[s + size:]
                yield "drop %d deviations" % min(size, n - s), c
            size //= 2


def explicit(prop, slot, case):
    """Turn the seeded schedule of every step into an explicit list of scheduling deviations."""
    rs = prop.exec(slot, case, None, trace=True)
    c = sim.clone(case)
    for st, r in zip(c["sc"]["steps"], rs):
        p = st["plan"]
        if p.get("mode", 1) not in (1, 2):
            continue
        devs = []
        for l in r.log:
            if l.startswith("S "):
                a = l.split()
                devs.append([int(a[1]), int(a[2])])
        if len(devs) > 4000:
            continue
        p["mode"] = 3
        p["devs"] = devs
    return c


def minimise(prop, slot, case, key, budget):
    t0 = time.time()
    tried = 0

    def bad(c):
        nonlocal tried
        tried += 1
        try:
            o = prop.run(slot, c)
        except sim.HarnessError:
            return False
        return not o.skip and any(k == key for k, _ in o.viol)

    def greedy(gen):
        nonlocal case
        again = True
        while again and time.time() - t0 < budget:
            again = False
            for _, c in gen(case):
                if time.time() - t0 > budget:
                    break
                if bad(c):
                    case = c
                    again = True
                    break
    greedy(cands_generic)
    greedy(lambda c: (("prop", x) for x in prop.shrink(c)))
    try:
        e = explicit(prop, slot, case)
        if e != case and bad(e):
            case = e
            greedy(cands_devs)
    except Exception:
        pass
    return case, tried


# ------------------------------------------------------------------ known findings
def known_list(pid):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except OSError:
        return []
    return [k for k in d.get("findings", []) if k.get("property") == pid and k.get("status") == "known"]


# ------------------------------------------------------------------ workers
def worker(pid, tier, seed, wid, deadline, ctr, q, stop):
    try:
        prop = load(pid)()
        slot = sim.Slot()
    except Exception:
        q.put(("error", traceback.format_exc()))
        q.put(("done", wid))
        return
    known = {k["key"] for k in known_list(pid)}
    try:
        while time.time() < deadline and not stop.value:
            with ctr.get_lock():
                idx = ctr.value
                ctr.value += 1
            rng = random.Random(derive(seed, pid, idx))
            try:
                case = prop.case(rng, tier, idx)
                t0 = time.time()
                out = prop.run(slot, case)
                rec = summarise(prop, case, out, idx)
                rec["secs"] = time.time() - t0
                # determinism self-check: the same seed must give the same execution
                if idx % 41 == 7 and not out.skip and not stop.value:
                    o2 = prop.run(slot, case)
                    same = [(r.rc, r.out, r.err, r.end.get("ehash"), r.end.get("ihash")) for r in out.results] == \
                           [(r.rc, r.out, r.err, r.end.get("ehash"), r.end.get("ihash")) for r in o2.results]
                    rec["det"] = bool(same)
            except sim.HarnessError as e:
                q.put(("error", str(e)))
                break
            except Exception:
                q.put(("error", "case %d\n%s" % (idx, traceback.format_exc())))
                continue
            new = [v for v in out.viol if v[0] not in known]
            rec["known"] = sorted({v[0] for v in out.viol if v[0] in known})
            if new and not out.skip:
                # confirm: an unreproducible alarm is not reported
                o2 = prop.run(slot, case)
                keys = {k for k, _ in o2.viol}
                new = [v for v in new if v[0] in keys]
                if new:
                    q.put(("viol", idx, case, new, slot.n))
                else:
                    rec["unrepro"] = 1
            q.put(("rec", rec))
    finally:
        slot.release()
        q.put(("done", wid))


def summarise(prop, case, out, idx):
    rec = {"idx": idx, "skip": out.skip, "nontrivial": bool(out.nontrivial), "cover": list(out.cover), "runs": len(out.results),
           "now": 0, "steps": 0, "ih": [], "flt": {}, "env": {}}
    for si, r in enumerate(out.results):
        if r.end:
            rec["now"] += int(r.end["now"])
            rec["steps"] += int(r.end["steps"])
            rec["ih"].append(r.end["ihash"])
        for k, v in r.env.items():
            rec["env"][k] = rec["env"].get(k, 0) + v
    for st, r in zip(case["sc"]["steps"], out.results):
        for i, f in enumerate(st["plan"].get("faults", [])):
            n = r.flt.get(i, 0)
            if n:
                k = "%s:%s" % (f[0], f[4])
                rec["flt"][k] = rec["flt"].get(k, 0) + n
        for a in st["plan"].get("actors", []):
            for ru in a.get("rules", []):
                if ru.get("kind", "ok") not in ("ok",) or ru.get("cut", -1) >= 0:
                    k = "peer:%s%s" % (ru.get("kind", "ok"), "/cut-" + ru.get("end", "close") if ru.get("cut", -1) >= 0 else "")
                    rec["flt"][k] = rec["flt"].get(k, 0) + 1
    sig = hashlib.sha256((json.dumps(case.get("meta", {}), sort_keys=True, default=str) + "|".join(rec["ih"])).encode()).hexdigest()[:16]
    rec["sig"] = sig
    rec["desc"] = prop.describe(case)
    return rec


def check(pid, tier, seed):
    t0 = time.time()
    prop = load(pid)()
    try:
        sim.build()
    except (sim.HarnessError, Exception) as e:
        print("BUILD-FAILED %s" % e, file=sys.stderr)
        return 2
    tb = time.time()
    budget = prop.quick_s if tier == "quick" else prop.thorough_s
    budget = float(os.environ.get("WSIM_BUDGET", budget))
    deadline = tb + budget
    ctx = mp.get_context("fork")
    q, ctr, stop = ctx.Queue(), ctx.Value("q", 0), ctx.Value("b", 0)
    ws = [ctx.Process(target=worker, args=(pid, tier, seed, w, deadline, ctr, q, stop)) for w in range(NPROC)]
    for w in ws:
        w.start()
    recs, errors, viol, done = [], [], None, 0
    while done < NPROC:
        try:
            m = q.get(timeout=5)
        except queue.Empty:
            if not any(w.is_alive() for w in ws):
                break
            if time.time() > deadline + 200:
                for w in ws:
                    w.terminate()
                break
            continue
        if m[0] == "rec":
            recs.append(m[1])
        elif m[0] == "error":
            errors.append(m[1])
        elif m[0] == "done":
            done += 1
        elif m[0] == "viol":
            if viol is None or m[1] < viol[1]:
                viol = m
            stop.value = 1
    for w in ws:
        w.join(timeout=5)
        if w.is_alive():
            w.terminate()
    search_wall = time.time() - tb
    rc = 0
    for e in errors[:3]:
        print("HARNESS-ERROR " + e, file=sys.stderr)
    known_hits = collections.Counter(k for r in recs for k in r["known"])
    for k in known_list(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    replay = None
    if viol:
        _, idx, case, vs, slotn = viol
        key, msg = vs[0]
        slot = sim.Slot()
        try:
            small, tried = minimise(prop, slot, case, key, 40 if tier == "quick" else 120)
            out = prop.run(slot, small)
            mm = [m for k, m in out.viol if k == key]
            if not mm:
                small, mm = case, [msg]
                out = prop.run(slot, small)
            replay = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, idx))
            os.makedirs(os.path.dirname(replay), exist_ok=True)
            trace = [l for r in out.results for l in r.log if l[:2] in ("X ", "CR", "M ", "SI", "EX", "DE", "TI", "ST")][:200]
            with open(replay, "w") as f:
                json.dump({"property": pid, "seed": seed, "index": idx, "slot": slot.n, "key": key, "message": mm[0],
                           "minimised_after": tried, "case": small,
                           "digest": [[r.rc, r.end.get("ihash"), r.end.get("ehash")] for r in out.results], "trace": trace}, f, indent=1)
        finally:
            slot.release()
        print("violation of %s (seed %d, run %d): %s" % (pid, seed, idx, mm[0][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        rc = 1
    evidence(prop, tier, seed, recs, errors, known_hits, search_wall, time.time() - t0, 1 if viol else 0)
    n_ok = sum(1 for r in recs if not r["skip"])
    if rc == 0 and (n_ok == 0 or len(errors) > max(3, len(recs) // 5)):
        print("HARNESS: too few usable runs (%d ok, %d errors)" % (n_ok, len(errors)), file=sys.stderr)
        rc = 2
    print("%s %s: %d cases, %d distinct non-trivial, %.0f s" % (pid, tier, len(recs), LAST["distinct"], time.time() - t0))
    return rc


LAST = {}


def evidence(prop, tier, seed, recs, errors, known_hits, search_wall, wall, nviol):
    ok = [r for r in recs if not r["skip"]]
    runs = sum(r["runs"] for r in ok)
    faults = collections.Counter()
    env = collections.Counter()
    cover = collections.Counter()
    ih = set()
    for r in ok:
        faults.update(r["flt"])
        env.update(r["env"])
        cover.update(r["cover"])
        ih.update(r["ih"])
    distinct = len({r["sig"] for r in ok if r["nontrivial"]})
    LAST["distinct"] = distinct
    det = [r["det"] for r in recs if "det" in r]
    nt = [r for r in ok if r["nontrivial"]][:3]
    d = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
         "coverage": {
             "evaluations": len(ok), "distinct_nontrivial": distinct, "rule": prop.rule,
             "samples": [{"run": r["idx"], "desc": r["desc"], "interleavings": r["ih"], "faults_fired": r["flt"]} for r in nt],
             "simulated_processes": runs,
             "runs_per_hour": int(runs / max(search_wall, 0.001) * 3600), "seeds_per_hour": int(len(ok) / max(search_wall, 0.001) * 3600),
             "simulated_seconds": round(sum(r["now"] for r in ok) / 1e9, 3), "scheduler_steps": sum(r["steps"] for r in ok),
             "distinct_interleavings": len(ih),
             "interleaving_measure": "hash of the sequence (decision, chosen thread, yield kind) over one process execution",
             "faults_injected": dict(faults), "environment_events": dict(env), "coverage_tags": dict(cover),
             "determinism_selfcheck": {"reruns": len(det), "identical": sum(det)},
             "skipped_internal": len(recs) - len(ok), "unreproduced_alarms": sum(r.get("unrepro", 0) for r in recs),
             "harness_errors": len(errors), "known_findings_hit": dict(known_hits),
             "components": dict(COMPONENTS, stub=prop.stub)},
         "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop.id)
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop.id + ".json"))


def replay(path):
    with open(path) as f:
        d = json.load(f)
    sim.build()
    prop = load(d["property"])()
    slot = sim.Slot(d["slot"])
    try:
        out = prop.run(slot, d["case"])
    finally:
        slot.release()
    dig = [[r.rc, r.end.get("ihash"), r.end.get("ehash")] for r in out.results]
    print("execution %s the recorded one" % ("identical to" if dig == d["digest"] else "DIFFERS from"))
    mm = [m for k, m in out.viol if k == d["key"]]
    for m in mm or [m for _, m in out.viol]:
        print("violation: " + m[:4000])
    if mm:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation of this kind on the current tree")
    return 0
