"""C14: the inferred registry says exactly what the acknowledged telemetry implies."""
import collections
import errno
import json

import yaml

from .. import core, otlp, sim
from .otlpbase import OtlpProp, netplan, session

def infer_type(v):
    if isinstance(v, bool):
        return "boolean"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "double"
    if isinstance(v, str):
        return "string"
    if isinstance(v, list):
        ts = {infer_type(x) for x in v if x is not None}
        if len(ts) == 1 and ts <= {"boolean", "int", "double", "string"}:
            return ts.pop() + "[]"
        if ts and ts <= {"int", "double"} and infer_type(next(x for x in v if x is not None)) == "double":
            return "double[]"
    return None


class Attr:
    """What a sequence of values of one attribute of one signal implies."""

    def __init__(self, v):
        self.type = infer_type(v) or "string"
        self.ex = []
        self.cls = None
        self.add(v)

    def add(self, v):
        if v is None or isinstance(v, list):
            return
        c = infer_type(v)
        if not self.ex:
            self.ex, self.cls = [v], c
            return
        if c != self.cls:
            if not (self.cls == "double" and c == "int"):
                return
            v = float(v)
        if v not in self.ex and len(self.ex) < 5:
            self.ex.append(v)


def key(v):
    return (type(v).__name__, v)


class Model:
    def __init__(self):
        self.resource = {}
        self.spans, self.metrics, self.events, self.span_events = {}, {}, {}, {}
        self.raw = collections.defaultdict(list)    # every value sent for an attribute

    def put(self, d, at):
        for k, v in at:
            self.raw[k].append(v)
            if k in d:
                d[k].add(v)
            else:
                d[k] = Attr(v)

    def add(self, req):
        for kind, _, c in otlp.expect(req):
            if kind == "resource":
                self.put(self.resource, c["attrs"])
            elif kind == "span":
                s = self.spans.setdefault(c["name"], ([], {}))
                s[0].append(c["kind"])
                self.put(s[1], c["attrs"])
                for n, a in c["events"]:
                    self.put(self.span_events.setdefault((c["name"], n), {}), a)
            elif kind == "metric":
                if c["instrument"] in ("Summary", "Unspecified"):
                    continue        # nothing that a registry could describe
                m = self.metrics.setdefault(c["name"], ([], {}))
                m[0].append((c["instrument"], c["unit"]))
                for _, a, _ in c["points"]:
                    self.put(m[1], a)
            elif kind == "log" and c["name"]:
                self.put(self.events.setdefault(c["name"], {}), c["attrs"])
        return self

    def views(self):
        yield self.resource
        for _, d in list(self.spans.values()) + list(self.metrics.values()):
            yield d
        yield from self.events.values()
        yield from self.span_events.values()

    def signals(self):
        """{(kind, name): attribute names}"""
        out = {("spans", n): set(d) for n, (_, d) in self.spans.items()}
        out.update({("metrics", n): set(d) for n, (_, d) in self.metrics.items()})
        ev = collections.defaultdict(set)
        for n, d in self.events.items():
            ev[n] |= set(d)
        for (_, n), d in self.span_events.items():
            ev[n] |= set(d)
        out.update({("events", n): s for n, s in ev.items()})
        return out

    def keys(self):
        return {k for v in self.views() for k in v}


class C14(OtlpProp):
    id = "C14"
    rule = ("seeded infer session: 1-4 OTLP clients of every style whose requests share attributes, signal names and conflicting types, misbehaving peers, any stop trigger, seeded scheduling, "
            "hash seeds, latency and partitions, output directory faults; the registry file is compared with a model of what was acknowledged and what was sent, and (for one client whose "
            "requests are answered one by one) with a second execution under another schedule and hash seed; non-trivial when a request was acknowledged before the stop")
    assumptions = ["an acknowledgement counts from the moment the client has received the complete grpc-status 0 reply",
                   "the order in which requests of concurrent clients or streams are processed is free; type and examples of an attribute then only have to be among what was sent"]

    def case(self, rng, tier, idx):
        S = otlp.Script(rng)
        det = rng.random() < 0.35
        reqs, names = session(rng, S, styles=["seq", "chop"] if det else None, sigs=("traces", "metrics", "logs", "profiles") if rng.random() < 0.7 else ("traces", "logs"))
        if det:
            S.actors = S.actors[:1]
            names = names[:1]
            rids = {r for r, w in S.where.items() if w[0] == names[0]}
            reqs = [q for q in reqs if q["rid"] in rids]
            S.where = {r: w for r, w in S.where.items() if r in rids}
        else:
            for k in range(rng.choice([0, 0, 1, 2])):
                S.nuisance("n%d" % k)
        stop = rng.choice(["post", "sigint", "sighup", "inactivity"])
        timeout = rng.choice([1, 2, 5]) if stop == "inactivity" and not det else rng.choice([0, 600])
        if stop == "inactivity" and det:
            stop = "post"
        if stop != "inactivity":
            when = rng.choice(["end", "end", "some", "random"]) if not det else "end"
            S.stop(stop, {"end": names, "some": [rng.choice(names)], "random": None}[when], delay=(0, rng.choice([1000, 100000])))
        plan = netplan(rng, S.actors, freeze=0.2)
        argv = ["registry", "infer", "--output", "out/reg", "--inactivity-timeout", str(timeout), "--admin-port", str(otlp.ADMIN)]
        files = {"x": ""}
        old = rng.random() < 0.3
        if old:
            files["out/reg/registry.yaml"] = "x: " + "old " * rng.choice([5, 50000])
        fault = False
        if det:
            plan.pop("faults", None)
        elif rng.random() < 0.25:
            fault = True
            e = rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS])
            cls, m = rng.choice([("mkdir", "out"), ("open", "registry.yaml"), ("write", "registry.yaml"), ("write", "registry.yaml"), ("write", "registry.yaml")])
            n = rng.choice([1, 1, 2])
            plan["faults"] = [[cls, m, n, -1, e, 0] if rng.random() < 0.7 else [cls, m, n, n, "short" if cls == "write" else e, rng.randrange(1, 40)]]
        steps = [{"argv": argv, "plan": plan}]
        if rng.random() < 0.4:
            steps.append({"argv": ["registry", "resolve", "-r", "out/reg", "--v2", "-f", "json"], "plan": core.sched(rng)})
        return {"sc": {"files": files, "steps": steps},
                "meta": {"reqs": reqs, "where": {str(k): v for k, v in S.where.items()}, "never": sorted(S.never), "stop": stop, "timeout": timeout, "det": det, "old": old, "fault": fault,
                         "seed2": rng.randrange(1, 1 << 40)}}

    def run(self, slot, case):
        out = core.Outcome()
        rs = self.exec(slot, case, out)
        r = rs[0]
        if out.skip:
            return out
        m = case["meta"]
        if self.crashed(out, r):
            return out
        h = otlp.History(r, m["where"], m["never"])
        must_ids = h.guaranteed(m["timeout"] * 10**9 if m["stop"] == "inactivity" else None)
        if any(l.startswith("KILLED") for l in r.log):
            out.nontrivial = False
            return out
        must, may = Model(), Model()
        for q in m["reqs"]:
            if q["rid"] in must_ids:
                must.add(q)
            if q["rid"] in h.sent:
                may.add(q)
        hit = m["fault"] and any(r.flt.get(i) and f[4] not in ("short",) for i, f in enumerate(case["sc"]["steps"][0]["plan"]["faults"]))
        out.cover = ["stop:" + m["stop"], "ordered" if m["det"] else "concurrent", "exit%s" % r.rc, "fault" if hit else "nofault"]
        out.nontrivial = bool(must.keys() or must.signals())
        if hit:
            if r.rc == 0 or not r.text("err").strip():
                out.fail("silent", "the output could not be written, but infer ended with exit code %s: %s" % (r.rc, r.text("err")[-300:]))
            return out
        if r.rc != 0:
            out.fail("exit", "infer ended with exit code %s: %s" % (r.rc, r.text("err")[-600:]))
            return out
        data = r.files.get("out/reg/registry.yaml")
        if m["old"] and data is not None and data.startswith(b"x: old"):
            data = None
        if data is None:
            if must.keys() or must.signals():
                out.fail("lost", "no registry was written although %d requests were acknowledged" % len(must_ids))
            return out
        try:
            doc = yaml.safe_load(data.decode())
            assert doc["file_format"] == "definition/2"
        except Exception as e:
            out.fail("unreadable", "the inferred registry cannot be read (%s): %r" % (e, data[:300]))
            return out
        total = m["det"] and len(must_ids) == len(m["reqs"])
        self.judge(out, doc, must, may, total)
        if len(rs) > 1:
            out.cover.append("resolved")
            if rs[1].rc != 0 or rs[1].special:
                out.fail("invalid", "the inferred registry cannot be resolved: exit %s, %s" % (rs[1].rc, rs[1].text("err")[-600:]))
            elif not out.viol:
                a = {x["key"] for x in json.loads(rs[1].text("out"))["registry"].get("attributes", [])}
                if a != {x["key"] for x in doc.get("attributes") or []}:
                    out.fail("invalid", "resolving the inferred registry gives the attributes %s" % sorted(a))
        if total and not out.viol:
            # same telemetry in the same order: same bytes, whatever the schedule and the hash seeds
            c2 = sim.clone(case)
            p = c2["sc"]["steps"][0]["plan"]
            p["seed"] = m["seed2"]
            p["hashseed"] = m["seed2"] ^ 0x5555
            r2 = self.exec(slot, c2, out)[0]
            h2 = otlp.History(r2, m["where"], m["never"])
            if not out.skip and not r2.special and len(h2.guaranteed()) == len(m["reqs"]) and r2.files.get("out/reg/registry.yaml") != data:
                a, b = data.decode().split("\n"), r2.files.get("out/reg/registry.yaml", b"").decode().split("\n")
                d = [x for x in zip(a, b) if x[0] != x[1]][:3]
                out.fail("differs", "the same telemetry in the same order gives different registries: %s" % (d or (len(a), len(b)),))
        return out

    def judge(self, out, doc, must, may, total):
        sig, low, high = {}, must.signals(), may.signals()
        refs = set()
        for kind, nk in (("spans", "type"), ("metrics", "name"), ("events", "name")):
            for s in doc.get(kind) or []:
                k = (kind, s[nk])
                if k in sig:
                    out.fail("twice", "%s %s is defined twice" % k)
                at = [a.get("ref") for a in s.get("attributes") or []]
                if len(at) != len(set(at)):
                    out.fail("twice", "%s %s refers to an attribute twice: %s" % (k + (at,)))
                sig[k] = (s, set(at))
                refs |= set(at)
        for k, at in low.items():
            if k not in sig:
                out.fail("lost", "%s %r was acknowledged but is not in the registry" % k)
            elif at - sig[k][1]:
                out.fail("lost", "%s %r lacks the acknowledged attributes %s" % (k + (sorted(at - sig[k][1]),)))
        for k, (s, at) in sig.items():
            if k not in high:
                out.fail("phantom", "%s %r is in the registry but nobody sent it" % k)
                continue
            if at - high[k]:
                out.fail("phantom", "%s %r has attributes nobody sent with it: %s" % (k + (sorted(at - high[k]),)))
            if k[0] == "spans":
                ks = may.spans[k[1]][0]
                if s["kind"] not in (ks[:1] if total else ks):
                    out.fail("altered", "span %r has kind %s, sent were %s" % (k[1], s["kind"], ks))
            if k[0] == "metrics":
                ms = may.metrics[k[1]][0]
                if (s["instrument"], s["unit"]) not in (ms[:1] if total else ms):
                    out.fail("altered", "metric %r has %s, sent were %s" % (k[1], (s["instrument"], s["unit"]), ms))
        defs = {}
        for a in doc.get("attributes") or []:
            if a["key"] in defs:
                out.fail("twice", "attribute %s is defined twice" % a["key"])
            defs[a["key"]] = a
        for k in must.keys() - set(defs):
            out.fail("lost", "attribute %s was acknowledged but is not defined" % k)
        for k in refs - set(defs):
            out.fail("dangling", "attribute %s is referenced but not defined" % k)
        for k in set(defs) - may.keys():
            out.fail("phantom", "attribute %s is defined but nobody sent it" % k)
        for k, a in defs.items():
            views = [v[k] for v in may.views() if k in v]
            if not views:
                continue
            ex = a.get("examples")
            ex = [] if ex is None else ex if isinstance(ex, list) else [ex]
            if total:
                if not any(v.type == a["type"] and [key(x) for x in v.ex] == [key(x) for x in ex] for v in views):
                    out.fail("altered", "attribute %s is %s with examples %s; the telemetry implies %s" % (k, a["type"], ex, [(v.type, v.ex) for v in views]))
            else:
                vals = may.raw[k]
                ts = {infer_type(v) or "string" for v in vals}
                sent = {key(v) for v in vals if v is not None and not isinstance(v, list)} | {key(float(v)) for v in vals if isinstance(v, int) and not isinstance(v, bool)}
                if a["type"] not in ts:
                    out.fail("altered", "attribute %s has type %s, sent were %s" % (k, a["type"], ts))
                if len(ex) > 5 or len({key(x) for x in ex}) != len(ex) or {key(x) for x in ex} - sent:
                    out.fail("altered", "attribute %s has examples %s, sent were %s" % (k, ex, vals[:20]))


PROP = C14
