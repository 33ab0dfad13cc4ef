"""C08: each sample is judged on its own data, resource and scope, whatever arrives around it; statistics and exit code follow from the findings."""
import json
import random

from .. import core, otlp, sim
from .otlpbase import OtlpProp, files, netplan, session

LEVELS = ["violation", "improvement", "information", "none"]


def strip(f):
    return json.dumps(f, sort_keys=True)


class C08(OtlpProp):
    id = "C08"
    rule = ("seeded live-check session of well-behaved clients (multiplexed, chopped, reconnecting) sending all four signals with and without resources and scopes; "
            "the findings of every sample are compared with the same requests delivered one by one to another process, with a policy that prints the "
            "resource and scope it sees, and with the statistics and exit code; non-trivial when at least two requests were reported in an order different from the reference")
    assumptions = ["the default advice policies are replaced by one that reports the context it sees; built-in advisors stay on",
                   "order of findings inside one sample is part of the comparison only as a multiset"]

    def case(self, rng, tier, idx):
        S = otlp.Script(rng)
        reqs, names = session(rng, S, styles=["seq", "pipe", "pipe", "chop", "reconnect"])
        for k in range(rng.choice([0, 0, 1])):
            S.nuisance("n%d" % k)
        S.stop(rng.choice(["post", "sigint", "sighup"]), names)
        fmt = rng.choice(["json", "jsonl", "yaml"])
        mode = rng.choice(["stream", "report", "file"]) if fmt != "yaml" else rng.choice(["report", "file"])
        level = rng.choice(LEVELS)
        base = ["registry", "live-check", "-r", "reg", "--advice-policies", "adv", "--inactivity-timeout", "0"]
        if rng.random() < 0.3:
            base.append("--v2")
        argv = base + ["--format", fmt, "--fail-on", level] + {"stream": [], "report": ["--no-stream"], "file": ["--output", "out"]}[mode]
        plan = netplan(rng, S.actors, freeze=0.2)
        plan.pop("partitions", None)
        # reference: the same requests one at a time on one connection
        R = otlp.Script(random.Random(1))
        R.client("c", reqs, "seq", gap=(0, 0))
        R.stop("sigint", ["c"], delay=(100, 0))
        ref = core.calm(actors=R.actors)
        return {"sc": {"files": files(rng), "steps": [{"argv": base + ["--format", "json", "--no-stream"], "plan": ref}, {"argv": argv, "plan": plan, "fresh": 1}]},
                "meta": {"reqs": reqs, "where": {str(k): v for k, v in S.where.items()}, "never": [], "fmt": fmt, "mode": mode, "level": level}}

    def run(self, slot, case):
        out = core.Outcome()
        r0, r = self.exec(slot, case, out)
        if out.skip:
            return out
        m = case["meta"]
        if self.crashed(out, r) or self.crashed(out, r0):
            return out
        a = self.report(out, r0, "json", "report")
        b = self.report(out, r, m["fmt"], m["mode"])
        if a is None or b is None:
            return out
        h = otlp.History(r, m["where"])
        out.cover = ["out:%s/%s" % (m["fmt"], m["mode"]), "fail-on:" + m["level"]] + ["ack:" + q["sig"] for q in m["reqs"] if q["rid"] in h.ack]
        for rep, code, level, what in ((a, r0.rc, "violation", "reference"), (b, r.rc, m["level"], "concurrent")):
            for k, msg in otlp.judge_context(rep, m["reqs"]) + otlp.judge_stats(rep, code, None if level == "none" else level):
                out.fail(k, "%s run: %s" % (what, msg))
            if level == "none" and code != 0:
                out.fail("exit", "exit code %d although --fail-on none" % code)
        ident = {}
        order = []
        for s in a.samples:
            o = otlp.observed(s)
            ident[self.name(o)] = sorted(strip(f) for f in otlp.findings(s))
            order.append(self.name(o))
        ord2 = []
        for s in b.samples:
            o = otlp.observed(s)
            n = self.name(o)
            ord2.append(n)
            if n in ident and n[2]:
                f = sorted(strip(x) for x in otlp.findings(s))
                if f != ident[n]:
                    x = [y for y in f if y not in ident[n]] + [y for y in ident[n] if y not in f]
                    out.fail("findings", "sample %s has other findings when telemetry is interleaved: %s" % (n[:2], x[:3]))
                    break
        if set(order) == set(ord2) and len(a.samples) == len(b.samples) and a.stats and b.stats and not out.viol:
            if a.stats != b.stats:
                d = {k: (a.stats.get(k), b.stats.get(k)) for k in set(a.stats) | set(b.stats) if a.stats.get(k) != b.stats.get(k)}
                out.fail("stats", "statistics depend on the arrival order: %s" % d)
        out.nontrivial = len(ord2) > 1 and order != ord2
        return out

    @staticmethod
    def name(o):
        return o[0], json.dumps(o[1] if o[1] is not None else [o[2].get("attrs"), o[2].get("name"), o[2].get("schema_url")]), otlp.rid_of(o) is not None


PROP = C08
