"""C12: emit exits 0 only when the collector accepted every signal of the registry."""
import collections
import errno
import json

from .. import collector, core, reggen, sim

SDK = [("OTEL_BSP_MAX_EXPORT_BATCH_SIZE", ["1", "2", "3"]), ("OTEL_BLRP_MAX_EXPORT_BATCH_SIZE", ["1", "2"]), ("OTEL_BSP_SCHEDULE_DELAY", ["1", "100"]),
       ("OTEL_BLRP_SCHEDULE_DELAY", ["1", "100"])]


def big(rng, v2):
    """A registry with more signals than one export batch or the SDK's queue holds."""
    files, reg, info = reggen.gen(rng, v2=v2, dep=0, size=0.5)
    n = rng.choice([530, 1100, 2100, 2600])
    what = rng.choice(["span", "event", "both"])
    g = []
    doc = {}
    for i in range(n):
        if what in ("span", "both"):
            if v2:
                doc.setdefault("spans", []).append({"type": "app.big%d" % i, "kind": "client", "brief": "Big %d." % i, "stability": "stable", "name": {"note": "n"}})
            else:
                g.append({"id": "span.app.big%d" % i, "type": "span", "span_kind": "client", "brief": "Big %d." % i, "stability": "stable"})
        if what in ("event", "both"):
            if v2:
                doc.setdefault("events", []).append({"name": "app.bigev%d" % i, "brief": "Big %d." % i, "stability": "stable"})
            else:
                g.append({"id": "event.app.bigev%d" % i, "type": "event", "name": "app.bigev%d" % i, "brief": "Big %d." % i, "stability": "stable"})
    if v2:
        doc["file_format"] = "definition/2"
        doc = dict(sorted(doc.items(), key=lambda kv: kv[0] != "file_format"))
    else:
        doc = {"groups": g}
    files["reg/big.yaml"] = reggen.jd(doc)
    return files, reg, dict(info, big=n)


def keyset(at):
    return sorted((a.get("key") or a.get("name")) + (".key" if str(a["type"]).startswith("template") else "") for a in at or [])


def model(text, v2):
    """The signals a resolved registry asks for: Counter of (signal, name, kind, attribute keys)."""
    d = json.loads(text)
    c = collections.Counter()
    c[("traces", "otel.weaver.emit", "internal", ("otel.weaver.registry_path",))] += 1
    if v2:
        R = d["registry"]
        for s in R.get("spans") or []:
            c[("traces", s["type"], s["kind"], tuple(keyset(s.get("attributes"))))] += 1
        for m in R.get("metrics") or []:
            c[("metrics", m["name"], m["instrument"], tuple(keyset(m.get("attributes"))))] += 1
        for e in R.get("events") or []:
            c[("logs", e["name"], "", tuple(keyset(e.get("attributes"))))] += 1
        return c
    for g in d["groups"]:
        ks = tuple(keyset(g.get("attributes")))
        if g["type"] == "span":
            c[("traces", g["id"], g.get("span_kind") or "internal", ks)] += 1
        elif g["type"] == "metric":
            c[("metrics", g["metric_name"], g["instrument"], ks)] += 1
        elif g["type"] == "event":
            c[("logs", g.get("name") or g["id"], "", ks)] += 1
    return c


def abstract(sig, ident):
    keys = lambda a: tuple(sorted(k for k, _ in json.loads(a)))
    if sig == "traces":
        return (sig, ident[1], ident[2], keys(ident[3]))
    if sig == "logs":
        return (sig, ident[1], "", keys(ident[4]))
    return (sig, ident[1], ident[3], keys(ident[4]) if ident[4] != "-" else ("no data point",))


def diff(a, b):
    m, x = a - b, b - a
    t = []
    if m:
        t.append("missing %d: %s" % (sum(m.values()), list(m.items())[:4]))
    if x:
        t.append("unexpected %d: %s" % (sum(x.values()), list(x.items())[:4]))
    return "; ".join(t)


class C12(core.Prop):
    id = "C12"
    rule = ("seeded registry (up to several thousand signals) emitted to a scripted collector that accepts, rejects, resets, stalls, delays or refuses, under network faults, partitions and clock "
            "jumps; with exit code 0 the accepted export requests hold exactly the spans, metrics and logs of the resolved registry, each once; a collector that accepts everything in "
            "time means exit code 0; the process always ends; non-trivial when export requests arrived")
    assumptions = ["the resolved registry printed by `registry resolve` is what emit should send", "a collector's status 0 is its acceptance (no partial success)"]
    stub = "OTLP collector (scripted actor)"
    wall = 120

    def case(self, rng, tier, idx):
        v2 = rng.random() < 0.4
        if rng.random() < 0.12:
            files, reg, info = big(rng, v2)
        else:
            files, reg, info = reggen.gen(rng, v2=v2, size=1.0, dep=rng.choice([0, 0, 1]))
        argv = ["registry", "emit", "-r", "reg", "--skip-policies"]
        if v2:
            argv.append("--v2")
        col = collector.actor(rng)
        env = {}
        for k, vs in SDK:
            if rng.random() < 0.3 and not info.get("big"):
                env[k] = rng.choice(vs)
        plan = core.sched(rng, net=True, heavy=bool(info.get("big")))
        if info.get("big"):
            plan["malloc"] = 0
            plan["pswitch"] = min(plan.get("pswitch", 5), 80)
        plan["actors"] = [col]
        plan["hosts"] = {"localhost": "127.0.0.1"}
        plan["maxtime_us"] = 600 * 1000000
        if rng.random() < 0.15:
            t = rng.randrange(0, 3000000)
            plan["partitions"] = [["col", t, t + rng.choice([10000, 1000000, 20000000])]]
        if rng.random() < 0.2:
            n = rng.randrange(1, 12)
            c = rng.choice(["send", "recv", "connect"])
            plan["faults"] = [[c, "-", n if c != "connect" else rng.choice([1, 1, 2]), n + rng.choice([0, 0, 2]), rng.choice([errno.ECONNRESET, errno.EPIPE, errno.ETIMEDOUT]), 0]]
        if rng.random() < 0.2:
            plan["sndbuf"] = rng.choice([64, 512, 4096])
        return {"sc": {"files": files, "steps": [{"argv": argv, "env": env, "plan": plan}]},
                "meta": {"v2": v2, "big": info.get("big", 0), "col": col.get("rules") or [col.get("refuse")], "env": env}}

    def run(self, slot, case):
        out = core.Outcome()
        sc, m = case["sc"], case["meta"]
        rv = self.ref(slot, "resolve", {"files": sc["files"], "steps": [{"argv": ["registry", "resolve", "-r", "reg", "-f", "json", "--skip-policies"] + (["--v2"] if m["v2"] else []), "plan": core.calm()}]})[0]
        if rv.special == "INTERNAL":
            out.skip = "internal"
            return out
        r = self.exec(slot, case, out)[0]
        if out.skip:
            return out
        if "panicked at" in r.text("err") or r.rc in (-6, -11, 134, 139):
            out.fail("crash", "emit crashed: exit %s, %s" % (r.rc, r.text("err")[-1500:]))
            return out
        if r.special:
            out.fail("hang", "emit does not end: %s; %s" % (r.special, "; ".join(l for l in r.log[-40:] if l[:3] in ("THR", "ACT", "DEA", "TIM"))))
            return out
        if rv.rc != 0:
            if r.rc == 0:
                out.fail("invalid", "emit succeeded on a registry that cannot be resolved")
            out.nontrivial = False
            return out
        want = model(rv.text("out"), m["v2"])
        rec = collector.received(r)
        out.nontrivial = bool(rec)
        got = collections.Counter()
        for t, pol, sig, its in rec:
            if pol == "ok":
                for _, ra, ident in its:
                    got[abstract(sig, ident)] += 1
        plan = sc["steps"][0]["plan"]
        slow = plan.get("latency_us", [0, 0])[1] > (20000 if m["big"] else 10**9 if "sndbuf" not in plan else 5000) or (m["big"] and "sndbuf" in plan)
        clean = not slow and not plan.get("faults") and not plan.get("partitions") and not any("refuse" in a or any(x.get("kind") != "ok" or x.get("delay", 0) > (1000 if case["meta"]["env"] or case["meta"]["big"] else 300000) for x in a["rules"]) for a in plan["actors"])
        out.cover = ["v2" if m["v2"] else "v1", "exit%d" % r.rc, "clean" if clean else "disturbed"] + (["big"] if m["big"] else []) + sorted({"policy-" + p for _, p, _, _ in rec})
        if r.rc == 0:
            d = diff(want, got)
            if d:
                out.fail("lost", "emit exits 0 but the collector did not accept exactly the signals of the registry: %s" % d)
        elif clean and not plan.get("jumps"):
            out.fail("spurious", "emit fails (exit %s) although the collector accepts everything: %s" % (r.rc, r.text("err")[-800:]))
        over = got - want
        if over:
            out.fail("extra", "the collector received signals that are not in the registry or received them twice: %s" % list(over.items())[:5])
        return out

    def shrink(self, case):
        p = case["sc"]["steps"][0]["plan"]
        for i in range(len(p["actors"][0]["rules"])):
            c = sim.clone(case)
            del c["sc"]["steps"][0]["plan"]["actors"][0]["rules"][i]
            yield c
        for k in list(case["sc"]["steps"][0]["env"]):
            c = sim.clone(case)
            del c["sc"]["steps"][0]["env"][k]
            yield c
        for f in sorted(case["sc"]["files"]):
            if not f.endswith("manifest.yaml"):
                c = sim.clone(case)
                del c["sc"]["files"][f]
                yield c


PROP = C12
