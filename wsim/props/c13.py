"""C13: with --emit-otlp-logs every finding of the report reaches the collector once, or the command fails."""
import collections
import errno
import json

from .. import collector, core, otlp, pb, sim
from .otlpbase import OtlpProp, files, netplan, session

P = "weaver.finding."
COL = 4319
FILTERS = ["[[live-check.finding_filters]]\nexclude = [\"missing_attribute\", \"missing_namespace\"]\n",
           "[[live-check.finding_filters]]\nmin_level = \"violation\"\n",
           "[[live-check.finding_level_overrides]]\nids = [\"missing_attribute\"]\nlevel = \"information\"\n"]


def flat(v, p=""):
    """The scalar leaves of a finding context, as the log attributes name them."""
    if isinstance(v, dict):
        for k, x in v.items():
            yield from flat(x, p + "." + k if p else k)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from flat(x, "%s.%d" % (p, i) if p else str(i))
    elif p and v is not None:
        yield p, v


def of_report(f):
    return (f.get("id"), f.get("level"), f.get("message"), f.get("signal_type"), f.get("signal_name"), json.dumps(sorted(flat(f.get("context"))), sort_keys=True))


def of_log(ident):
    """(finding, resource attributes of the finding) of a received log record."""
    a = dict(json.loads(ident[4]))
    ctx = sorted((k[len(P + "context."):], v) for k, v in a.items() if k.startswith(P + "context."))
    res = {k[len(P + "resource.attribute."):]: v for k, v in a.items() if k.startswith(P + "resource.attribute.")}
    return (a.get(P + "id"), a.get(P + "level"), json.loads(ident[3]), a.get(P + "signal.type"), a.get(P + "signal.name"), json.dumps(ctx, sort_keys=True)), res


def sample_file(rng, n):
    out = []
    for i in range(n):
        if rng.random() < 0.1:
            pre = [{"name": "telemetry.sdk.name", "value": "otel"}] if rng.random() < 0.5 else []
            out.append({"resource": {"attributes": pre + [{"name": "service.name", "value": "svc-%d-0" % i}, {"name": "host.name", "value": rng.choice(["h1", "h2"])}]}})
        at = [{"name": rng.choice(["app.uid", "app.old", "app.exp", "un.known%d" % i, "app.kind", "Bad-Name"]), "value": rng.choice(["x", 3, True, "a"])} for _ in range(rng.randrange(0, 3))]
        out.append(rng.choice([{"span": {"name": "s%d" % i, "kind": "client", "attributes": at}}, {"attribute": {"name": "un.known%d" % i, "value": i}},
                               {"log": {"event_name": "app.started", "severity_number": 9, "attributes": at}}]))
    return json.dumps(out)


class C13(OtlpProp):
    id = "C13"
    rule = ("seeded live-check run (OTLP session or sample file, up to thousands of findings) that emits its findings to a scripted collector which accepts, rejects, resets, stalls, delays or refuses, "
            "under network faults and partitions; with exit code 0 (--fail-on none) the accepted log records are exactly the findings of the report, each once, with id, level, message, signal, "
            "context and resource; a collector that accepts everything means exit code 0; the process always ends; non-trivial when findings were exported")
    assumptions = ["a collector's status 0 is its acceptance"]
    stub = "OTLP collector and OTLP clients (scripted actors)"

    def case(self, rng, tier, idx):
        fs = files(rng)
        reqs, S = [], otlp.Script(rng)
        src = "file" if rng.random() < 0.5 else "otlp"
        big = False
        argv = ["registry", "live-check", "-r", "reg", "--format", "json", "--no-stream", "--fail-on", "none", "--emit-otlp-logs", "--otlp-logs-endpoint", "http://127.0.0.1:%d" % COL]
        if src == "file":
            big = rng.random() < 0.1
            fs["in.json"] = sample_file(rng, rng.choice([300, 900]) if big else rng.randrange(1, 12))
            argv += ["--input-source", "in.json"]
            if big or rng.random() < 0.5:
                fs.pop("adv/ctx.rego")
            else:
                argv += ["--advice-policies", "adv"]
        else:
            reqs, names = session(rng, S, nreq=rng.choice([1, 2, 3]), styles=["seq", "pipe", "chop"])
            S.stop(rng.choice(["sigint", "sighup", "post"]), names)
            argv += ["--advice-policies", "adv", "--inactivity-timeout", "0"]
        flt = rng.random() < 0.2
        if flt:
            fs[".weaver.toml"] = rng.choice(FILTERS)
        env = {}
        for k, vs in (("OTEL_BLRP_MAX_EXPORT_BATCH_SIZE", ["1", "2", "5"]), ("OTEL_BLRP_SCHEDULE_DELAY", ["1", "50"])):
            if rng.random() < 0.4 and not (big and k.endswith("SIZE")):
                env[k] = rng.choice(vs)
        col = collector.actor(rng, port=COL)
        plan = netplan(rng, S.actors + [col], freeze=0.15)
        plan.pop("faults", None)
        plan.pop("partitions", None)
        if big:
            plan["malloc"] = 0
            plan["pswitch"] = min(plan.get("pswitch", 5), 80)
        if rng.random() < 0.15:
            t = rng.randrange(0, 3000000)
            plan["partitions"] = [["col", t, t + rng.choice([10000, 1000000, 20000000])]]
        if rng.random() < 0.15 and src == "file":
            n = rng.randrange(1, 12)
            plan["faults"] = [[rng.choice(["send", "recv", "connect"]), "-", n, n + rng.choice([0, 0, 2]), rng.choice([errno.ECONNRESET, errno.EPIPE, errno.ETIMEDOUT]), 0]]
        return {"sc": {"files": fs, "steps": [{"argv": argv, "env": env, "plan": plan}]},
                "meta": {"reqs": reqs, "where": {str(k): v for k, v in S.where.items()}, "never": [], "src": src, "big": big, "col": col.get("rules") or [col.get("refuse")], "env": env, "filtered": flt}}

    @staticmethod
    def resources(sc, m):
        """The resources of the input by service name."""
        d = {}
        if m["src"] == "file":
            for x in json.loads(sc["files"]["in.json"]):
                a = {y["name"]: y["value"] for y in x.get("resource", {}).get("attributes", [])}
                if a:
                    d[a["service.name"]] = a
        for q in m["reqs"]:
            for g in q["groups"]:
                a = dict(g["res"] or [])
                if "service.name" in a:
                    d[a["service.name"]] = a
        return d

    def run(self, slot, case):
        out = core.Outcome()
        sc, m = case["sc"], case["meta"]
        r = self.exec(slot, case, out)[0]
        if out.skip:
            return out
        if self.crashed(out, r):
            return out
        rec = collector.received(r)
        got, where, total = collections.Counter(), {}, 0
        known = self.resources(sc, m)
        for t, pol, sig, its in rec:
            if sig != "logs":
                out.fail("signal", "the collector received %s" % sig)
            for _, ra, ident in its:
                total += 1
                if pol == "ok":
                    f, res = of_log(ident)
                    got[f] += 1
                    if f[0] == "ctx":
                        c = dict(json.loads(f[5]))
                        if c.get("svc.0") != res.get("service.name"):
                            out.fail("resource", "a finding computed with resource %s is emitted with resource %s" % (c.get("svc.0"), res))
                        elif c.get("svc.0") in known and res != known[c["svc.0"]]:
                            out.fail("resource", "a finding computed with resource %s is emitted with resource %s" % (known[c["svc.0"]], res))
        out.nontrivial = total > 0
        plan = sc["steps"][0]["plan"]
        act = [a for a in plan["actors"] if a["type"] == "server"]
        slow = plan.get("latency_us", [0, 0])[1] > (20000 if m["big"] else 500 if m["env"] else 10**9) or "sndbuf" in plan
        clean = not slow and not plan.get("faults") and not plan.get("partitions") and not any("refuse" in a or any(x.get("kind") != "ok" or x.get("delay", 0) > 1000 for x in a["rules"]) for a in act)
        out.cover = [m["src"], "exit%d" % r.rc, "clean" if clean else "disturbed"] + (["big"] if m["big"] else []) + sorted({"policy-" + p for _, p, _, _ in rec})
        if r.rc != 0:
            if clean and not plan.get("jumps"):
                out.fail("spurious", "live-check fails (exit %s) although the collector accepts everything: %s" % (r.rc, r.text("err")[-800:]))
            if "panicked" in r.text("err"):
                out.fail("crash", r.text("err")[-800:])
            return out
        rep = self.report(out, r, "json", "report")
        if rep is None:
            return out
        want = collections.Counter(of_report(f) for s in rep.samples for f in otlp.findings(s))
        if m["filtered"]:
            if want != got and not (want - got):
                out.fail("filtered", "findings dropped by a filter are emitted: %s" % list((got - want).items())[:2])
            elif want != got:
                out.fail("filtered", "findings are emitted without the configured filters and overrides: report %s, emitted %s" % (list((want - got).items())[:2], list((got - want).items())[:2]))
            return out
        if want != got:
            miss, extra = want - got, got - want
            out.fail("lost" if miss else "extra", "exit 0, %d findings in the report, %d accepted by the collector; missing %d: %s; extra %d: %s" % (
                sum(want.values()), sum(got.values()), sum(miss.values()), list(miss)[:2], sum(extra.values()), list(extra)[:2]))
        return out

    def shrink(self, case):
        p = case["sc"]["steps"][0]["plan"]
        for j, a in enumerate(p["actors"]):
            for i in range(len(a.get("rules", []))):
                c = sim.clone(case)
                del c["sc"]["steps"][0]["plan"]["actors"][j]["rules"][i]
                yield c
        for k in list(case["sc"]["steps"][0]["env"]):
            c = sim.clone(case)
            del c["sc"]["steps"][0]["env"][k]
            yield c
        yield from OtlpProp.shrink(self, case)


PROP = C13
