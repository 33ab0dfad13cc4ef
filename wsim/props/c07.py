"""C07: everything the receiver acknowledged before it was told to stop is in the report, once and intact."""
import errno

from .. import core, otlp, sim
from .otlpbase import OtlpProp, files, netplan, session


class C07(OtlpProp):
    id = "C07"
    rule = ("seeded live-check session: 1-4 OTLP clients (sequential, multiplexed, chopped frames, reconnecting, aborting, stream resets, half-close, "
            "not reading) plus misbehaving peers, one stop trigger (SIGINT, SIGHUP, POST /stop, inactivity) at a seeded moment, any report format and "
            "destination, seeded scheduling, latency, partitions; non-trivial when at least one request was acknowledged")
    assumptions = ["an acknowledgement counts from the moment the client has received the complete grpc-status 0 reply",
                   "the inactivity stop may race with a request arriving at that moment: only requests acknowledged before the earliest possible stop are required"]

    def case(self, rng, tier, idx):
        S = otlp.Script(rng)
        burst = rng.random() < 0.08
        reqs, names = session(rng, S, burst=burst)
        for k in range(rng.choice([0, 0, 1, 2])):
            S.nuisance("n%d" % k)
        stop = rng.choice(["post", "post", "sigint", "sighup", "inactivity"])
        timeout = rng.choice([1, 2, 5]) if stop == "inactivity" else rng.choice([0, 0, 600])
        when = "-"
        if stop != "inactivity":
            when = rng.choice(["end", "end", "some", "random"])
            if when == "end":
                S.stop(stop, names)
            elif when == "some":
                S.stop(stop, [rng.choice(names)])
            else:
                S.stop(stop, None, delay=(0, rng.choice([1000, 100000, 2000000])))
        fmt = rng.choice(["json", "json", "jsonl", "yaml"])
        mode = rng.choice(["stream", "report", "file"])
        argv = ["registry", "live-check", "-r", "reg", "--format", fmt, "--advice-policies", "adv", "--inactivity-timeout", str(timeout)]
        if mode == "report":
            argv.append("--no-stream")
        elif mode == "file":
            argv += ["--output", "out"]
        if fmt == "yaml" and mode == "stream":
            argv.append("--no-stream")
        plan = netplan(rng, S.actors, freeze=0.2)
        if rng.random() < 0.25:
            n = rng.randrange(1, 60)
            plan["faults"] = [[rng.choice(["recv", "send"]), "port:4317", n, n, rng.choice([errno.ECONNRESET, errno.ETIMEDOUT]), 0]]
        return {"sc": {"files": files(rng), "steps": [{"argv": argv, "plan": plan}]},
                "meta": {"reqs": reqs, "where": {str(k): v for k, v in S.where.items()}, "never": sorted(S.never), "stop": stop, "when": when, "timeout": timeout,
                         "fmt": fmt, "mode": mode, "burst": burst}}

    def run(self, slot, case):
        out = core.Outcome()
        r = self.exec(slot, case, out)[0]
        if out.skip:
            return out
        m = case["meta"]
        if self.crashed(out, r):
            return out
        h = otlp.History(r, m["where"], m["never"])
        must = h.guaranteed(m["timeout"] * 10**9 if m["stop"] == "inactivity" else None)
        out.cover = ["stop:%s/%s" % (m["stop"], m["when"]), "out:%s/%s" % (m["fmt"], m["mode"]), "burst" if m["burst"] else "calm"] + \
                    ["ack:" + q["sig"] for q in m["reqs"] if q["rid"] in h.ack]
        out.nontrivial = bool(must)
        if h.stop is None and m["stop"] != "inactivity" and h.code not in (0, 1):
            pass
        rep = self.report(out, r, m["fmt"], m["mode"])
        if rep is None:
            return out
        for k, msg in otlp.judge_report(rep, m["reqs"], must, h.sent):
            out.fail(k, msg + " (stop %s, exit %s)" % (m["stop"], r.rc))
        return out


PROP = C07
