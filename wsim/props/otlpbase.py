"""Shared by the OTLP receiver properties: live-check sessions with scripted telemetry clients."""
import errno

from .. import core, otlp, sim

INFRA = ("noread",)


def files(rng, ctx=True):
    f = otlp.registry(rng)
    if ctx:
        f["adv/ctx.rego"] = otlp.CTX
    return f


def session(rng, S, nreq=None, styles=None, first_rid=0, burst=False, sigs=("traces", "metrics", "logs", "profiles")):
    """Adds 1-4 telemetry clients to the script. -> (requests, clients whose end can be waited for)"""
    reqs, names = [], []
    n = rng.choice([1, 2, 2, 3, 4])
    rid = first_rid
    for c in range(n):
        k = nreq or rng.choice([1, 2, 3, 5])
        style = rng.choice(styles or otlp.STYLES)
        if burst and c == 0:
            k, style = rng.choice([110, 140]), "pipe"
        rs = []
        for _ in range(k):
            rs.append(otlp.request(rng, rid, big=rng.random() < 0.04, sigs=sigs))
            rid += 1
        reqs += rs
        name = "c%d" % c
        S.client(name, rs, style, gap=(0, rng.choice([0, 100, 5000, 300000])) if not burst else (0, 0))
        names.append(name)
    return reqs, names


def netplan(rng, actors, cap_s=900, freeze=0.0):
    p = core.sched(rng, net=True)
    p["actors"] = actors
    p["maxtime_us"] = cap_s * 1000000
    if rng.random() < 0.2:
        t0 = rng.randrange(0, 3000000)
        cl = [a["name"] for a in actors if a["name"].startswith("c")]
        if cl:
            p["partitions"] = [[rng.choice(cl), t0, t0 + rng.choice([10000, 500000, 4000000])]]
    if rng.random() < 0.08:
        n = rng.randrange(1, 5)
        p["faults"] = [["accept", "port:4317", n, n + rng.choice([0, 1, 5]), rng.choice([errno.EMFILE, errno.ENFILE, errno.ENOMEM]), 0]]
    if rng.random() < freeze:
        p["freeze"] = [core.stall(rng) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.3:
        p["sndbuf"] = rng.choice([64, 512, 4096])
    return p


def out_text(r, fmt, mode):
    """The report of a run: from the file or from standard output."""
    if mode == "file":
        fs = [k for k in r.files if k.startswith("out/") and not k.endswith("/")]
        return b"".join(r.files[k] for k in sorted(fs)).decode("utf8", "replace")
    return r.out.decode("utf8", "replace")


class OtlpProp(core.Prop):
    level = "exploration"
    wall = 100
    stub = "OTLP clients, admin clients (scripted actors)"

    def report(self, out, r, fmt, mode):
        t = out_text(r, fmt, mode)
        try:
            return otlp.Report(t, fmt)
        except Exception as e:
            out.fail("noreport", "the report cannot be read (%s); exit %s; stderr: %s; report: %r" % (e, r.rc if not r.special else r.special, r.text("err")[-600:], t[:300]))
            return None

    def crashed(self, out, r, want=None):
        """Outcomes that are wrong whatever the scenario."""
        if "panicked at" in r.text("err") or r.rc in (-6, -11, 134, 139):
            out.fail("crash", "weaver crashed: exit %s, stderr: %s" % (r.rc, r.text("err")[-1500:]))
            return True
        if r.special:
            out.fail("hang", "weaver does not terminate: %s; %s" % (r.special, "; ".join(l for l in r.log[-40:] if l[:3] in ("THR", "ACT", "DEA", "TIM"))))
            return True
        return False

    def shrink(self, case):
        # fewer clients
        st = case["sc"]["steps"][-1]
        for i, a in enumerate(st["plan"].get("actors", [])):
            if a["name"].startswith("n"):
                c = sim.clone(case)
                p = c["sc"]["steps"][-1]["plan"]
                p["actors"][i]["ops"] = [["mark", "done-" + a["name"]]]
                if p["actors"][i]["ops"] != a["ops"]:
                    yield c
            elif a["name"].startswith("c"):
                rids = [int(k) for k, w in case["meta"]["where"].items() if w[0] == a["name"]]
                if rids:
                    c = sim.clone(case)
                    c["sc"]["steps"][-1]["plan"]["actors"][i]["ops"] = [["mark", "done-" + a["name"]]]
                    for k in rids:
                        c["meta"]["where"].pop(str(k), None)
                    c["meta"]["reqs"] = [q for q in c["meta"]["reqs"] if q["rid"] not in rids]
                    yield c
        # fewer items
        # (requests are encoded in the script, so they are only dropped as a whole)

    def describe(self, case):
        m = case["meta"]
        return {k: v for k, v in m.items() if k not in ("reqs", "where")} | {"requests": len(m.get("reqs", []))}
