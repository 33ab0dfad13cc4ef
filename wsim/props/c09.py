"""C09: every way of stopping the receiver ends it promptly with its report, whatever the clients do."""
import errno

from .. import core, otlp, sim
from .otlpbase import OtlpProp, files, netplan, session

BOUND = 10 * 10**9


class C09(OtlpProp):
    id = "C09"
    rule = ("seeded live-check or infer session with connected, stalled, half-open, garbage and not-reading OTLP clients and one to three stop triggers "
            "(SIGINT, SIGHUP, POST /stop in any mix) at seeded moments, also while a thread of weaver or the reader of its output stalls and the channel to the checker is full; the process must end by itself with the "
            "report within 10 simulated seconds of the first trigger it accepted (or of the end of the stall); non-trivial when a stop trigger found the receiver running")
    assumptions = ["a POST /stop counts when its client waits for the answer",
                   "a signal that arrives before the handlers are installed ends the process like any program"]

    def case(self, rng, tier, idx):
        S = otlp.Script(rng)
        infer = rng.random() < 0.3
        reqs, names = session(rng, S, styles=["seq", "pipe", "chop", "abort", "rst", "noread", "noread", "halfclose"], burst=rng.random() < 0.25)
        full = len(reqs) > 100 and rng.random() < 0.6       # the checker stalls until the channel to it is full
        for k in range(rng.choice([0, 1, 2, 3])):
            S.nuisance("n%d" % k)
        stops = []
        for k in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(["post", "sigint", "sighup"])
            after = rng.choice([None, [rng.choice(names)], [rng.choice(names)]])
            if full:
                after = None
            S.stop(kind, after, name="s%d" % k, delay=(100000, 2000000) if full else (0, rng.choice([0, 1000, 100000, 1000000])), wait=rng.random() < 0.5,
                   extra=[] if rng.random() < 0.7 else [["connect", otlp.ADMIN]])
            if rng.random() < 0.3:
                ops = S.actors[-1]["ops"]
                ops.append([rng.choice(["close", "reset", "shutwr"])])
                if ops[-2][0] == "send":
                    ops[-2] = [ops[-2][0], ops[-2][1], "maybe"]    # gone before the answer: the request may be lost
            stops.append(kind)
        if infer:
            argv = ["registry", "infer", "--output", "out", "--inactivity-timeout", "0", "--admin-port", str(otlp.ADMIN)]
            fmt = mode = "-"
        else:
            fmt, mode = "json", rng.choice(["stream", "report", "file"])
            argv = ["registry", "live-check", "-r", "reg", "--format", fmt, "--advice-policies", "adv", "--inactivity-timeout", rng.choice(["0", "0", "900"])]
            argv += {"stream": [], "report": ["--no-stream"], "file": ["--output", "out"]}[mode]
        plan = netplan(rng, S.actors, cap_s=400, freeze=0.35)
        plan.pop("partitions", None)
        if full:
            t0 = rng.randrange(2000, 5000)
            plan["freeze"] = [[rng.choice([0, 0, -1]), t0, t0 + rng.choice([2000000, 4000000])]]
        x = rng.random()
        fault = None
        if x < 0.06:
            fault = "bind"
            plan["faults"] = [["bind", "port:%d" % rng.choice([4317, otlp.ADMIN]), 1, -1, rng.choice([errno.EADDRINUSE, errno.EACCES, errno.EADDRNOTAVAIL]), 0]]
        elif x < 0.2:
            fault = "accept"
            n = rng.randrange(1, 5)
            plan["faults"] = [["accept"] + rng.choice([["port:4317", n, n + rng.choice([0, 0, 2, 20]), errno.ECONNABORTED, 0],
                                                      [rng.choice(["-", "port:4317", "port:%d" % otlp.ADMIN]), n, n + rng.choice([0, 0, 2, 20]), rng.choice([errno.EMFILE, errno.ENFILE, errno.ENOBUFS]), 0]])]
        return {"sc": {"files": files(rng), "steps": [{"argv": argv, "plan": plan}]},
                "meta": {"reqs": reqs, "where": {str(k): v for k, v in S.where.items()}, "never": sorted(S.never), "stops": stops, "infer": infer, "fmt": fmt, "mode": mode, "fault": fault}}

    def run(self, slot, case):
        out = core.Outcome()
        r = self.exec(slot, case, out)[0]
        if out.skip:
            return out
        m = case["meta"]
        # a trigger counts when the process accepts it: a handled signal, or a POST that reached it
        trig = [int(l.split()[1]) for l in r.log if l.startswith("SIG ") and "handler=1" in l]
        for l in r.log:
            if l.startswith("TX ") and l.endswith("tag=stop"):
                # its connection may have to wait until accepting works again
                trig.append(max([int(l.split()[1])] + [int(x.split()[1]) for x in r.log if x.startswith("X ") and "cls=accept" in x]) + 250 * 10**6)
        killed = any(l.startswith("KILLED") for l in r.log)
        out.cover = ["+".join(sorted(m["stops"])), "infer" if m["infer"] else "live-check/" + m["mode"], "killed-at-start" if killed else "ended", "exit%s" % r.rc]
        out.nontrivial = bool(trig) and not killed
        if killed and not r.special:
            if trig:
                out.fail("killed", "a signal killed the process although its handlers were installed")
            return out
        if m.get("fault") == "bind" and r.flt.get(0):
            out.cover.append("bind-fault")
            out.nontrivial = True
            if self.crashed(out, r):
                return out
            if r.rc == 0 or not r.text("err").strip():
                out.fail("silent", "the receiver could not open its port and the command ended with exit code %s: %s" % (r.rc, r.text("err")[-500:]))
            return out
        if m.get("fault") == "accept" and r.flt.get(0):
            out.cover.append("accept-fault")
        if not trig:
            if r.special and r.special != "INTERNAL":
                out.nontrivial = False      # no stop ever reached it
            return out
        if self.crashed(out, r):
            return out
        h = otlp.History(r, m["where"], m["never"])
        if r.env.get("freeze"):
            out.cover.append("stalled")
        t0 = max(min(trig), core.thawed(case["sc"]["steps"][0]["plan"]))
        if h.exit_t - t0 > BOUND:
            out.fail("late", "the process ended %.1f s after the first stop trigger (or the last stall)" % ((h.exit_t - t0) / 1e9))
        if m["infer"]:
            if r.rc != 0:
                out.fail("exit", "infer ended with exit code %s after a stop: %s" % (r.rc, r.text("err")[-600:]))
            elif h.guaranteed() and any(otlp.expect(q) for q in m["reqs"] if q["rid"] in h.guaranteed()) and not any(k.startswith("out/") for k in r.files):
                if any(e[0] != "profile" and e[0] != "instrumentation_scope" for q in m["reqs"] if q["rid"] in h.guaranteed() for e in otlp.expect(q)):
                    out.fail("noreport", "infer ended without an inferred registry")
            return out
        if r.rc not in (0, 1):
            out.fail("exit", "live-check ended with exit code %s after a stop: %s" % (r.rc, r.text("err")[-600:]))
            return out
        rep = self.report(out, r, m["fmt"], m["mode"])
        if rep is None:
            return out
        if rep.stats is None:
            out.fail("noreport", "the process ended without a complete report (exit %s)" % r.rc)
        for k, msg in otlp.judge_report(rep, m["reqs"], set(), h.sent) + otlp.judge_stats(rep, r.rc):
            out.fail(k, msg)
        return out


PROP = C09
