"""C19: every MCP request gets its own answer, once, whatever else happens in the session."""
import base64
import json
import random

from .. import core, otlp, reggen, sim

US = 1000000
PROTO = ["2025-03-26", "2024-11-05", "2025-06-18"]


def B(b):
    return base64.b64encode(b).decode()


def names_of(reg):
    return {"attribute": list(reg.attrs), "metric": list(reg.metrics), "span": list(reg.spans), "event": list(reg.events), "entity": list(reg.entities)}


def words(rng, names):
    n = rng.choice([x for v in names.values() for x in v] or ["app.x"])
    k = rng.random()
    if k < 0.3:
        return n
    if k < 0.5:
        return n[:rng.randrange(1, len(n) + 1)]
    if k < 0.7:
        return " ".join(rng.sample(n.replace("_", ".").split("."), k=min(2, n.count(".") + 1)))
    return rng.choice(["of", "it", "member", "zzz", "APP", "the " + n, "", n + "x", "é", "."])


def sample(rng, names):
    def at(n=None):
        k = n or (rng.choice(names["attribute"]) if names["attribute"] and rng.random() < 0.7 else rng.choice(["no.such", "app", "App.X", "un known"]))
        return {"name": k, "value": rng.choice(["s", 5, 1.5, True, ["a"], "v0", "v1", None])}
    k = rng.randrange(6)
    if k == 0:
        return {"attribute": at()}
    ats = [at() for _ in range(rng.randrange(4))]
    if k == 1:
        return {"span": {"name": "s%d" % rng.randrange(9), "kind": rng.choice(["client", "server", "internal"]), "attributes": ats,
                         "span_events": [{"name": "e", "attributes": [at()]}] if rng.random() < 0.3 else []}}
    if k == 2:
        return {"metric": {"name": rng.choice(names["metric"] or ["m"]) if rng.random() < 0.7 else "no.metric", "unit": rng.choice(["s", "1", "By", ""]),
                           "instrument": rng.choice(["gauge", "counter", "histogram", "updowncounter"]), "data_points": [{"value": 1, "attributes": ats}] if rng.random() < 0.5 else None}}
    if k == 3:
        return {"resource": {"attributes": ats}}
    if k == 4:
        return {"log": {"event_name": rng.choice(names["event"] or ["e"]) if rng.random() < 0.7 else "no.event", "severity_number": 9, "severity_text": "INFO", "body": "b", "attributes": ats}}
    return {"span_event": {"name": "exception", "attributes": ats}}


def tool(rng, names):
    k = rng.choice(["search", "search", "get", "get", "get", "live_check", "live_check", "browse", "list", "ping", "badtool", "badargs", "badmethod"])
    pick = lambda t: rng.choice(names[t]) if names[t] and rng.random() < 0.85 else words(rng, names)
    if k == "search":
        a = {}
        if rng.random() < 0.8:
            a["query"] = words(rng, names)
        if rng.random() < 0.5:
            a["type"] = rng.choice(["all", "attribute", "metric", "span", "event", "entity"])
        if rng.random() < 0.3:
            a["stability"] = rng.choice(["stable", "development", "experimental"])
        if rng.random() < 0.5:
            a["limit"] = rng.choice([0, 1, 2, 5, 100, 100000])
        return "tools/call", {"name": "search", "arguments": a}
    if k == "get":
        t = rng.choice(["attribute", "attribute", "metric", "span", "event", "entity"])
        return "tools/call", {"name": "get_" + t, "arguments": {{"attribute": "key", "metric": "name", "event": "name"}.get(t, "type"): pick(t)}}
    if k == "live_check":
        a = {"samples": [sample(rng, names) for _ in range(rng.choice([0, 1, 1, 2, 5]))]}
        if rng.random() < 0.4:
            a["output"] = rng.choice(["full", "findings_only"])
        return "tools/call", {"name": "live_check", "arguments": a}
    if k == "browse":
        n = pick("attribute")
        a = rng.choice([{}, {"prefix": ""}, {"prefix": n.rsplit(".", 1)[0]}, {"prefix": n.split(".")[0]}, {"prefix": n}, {"prefix": n.split(".")[0] + "."}, {"prefix": None}])
        return "tools/call", {"name": "browse_namespace", "arguments": a}
    return {"list": ("tools/list", {}), "ping": ("ping", {}), "badtool": ("tools/call", {"name": "no_such_tool", "arguments": {}}),
            "badargs": ("tools/call", {"name": rng.choice(["search", "get_attribute", "live_check"]), "arguments": {"limit": "x", "samples": 5}}),
            "badmethod": ("no/such", {})}[k]


def line(id, method, params):
    return json.dumps({"jsonrpc": "2.0", "id": id, "method": method, "params": params}, ensure_ascii=False).encode() + b"\n"


def hello(proto="2025-03-26"):
    return line("init", "initialize", {"protocolVersion": proto, "capabilities": {}, "clientInfo": {"name": "sim", "version": "1"}})


READY = json.dumps({"jsonrpc": "2.0", "method": "notifications/initialized"}).encode() + b"\n"


def wait_for(id, tmo=120 * US):
    # ids are chosen so that none is the prefix of another
    return ["recvwait", ('"id":%s,' % json.dumps(id)).encode().hex(), tmo, 0]


class C19(core.Prop):
    id = "C19"
    level = "exploration"
    quick_s = 35
    k = 3
    stub = "MCP client (scripted JSON-RPC lines over simulated pipes)"
    rule = ("seeded registry and MCP session: up to 14 requests (searches, look-ups, namespace browsing, live checks, malformed ones) sent one by one or pipelined, in chopped pieces, with slow reading, pauses, notifications and "
            "an early or late end of input, under several schedules with interrupted and short reads and writes; every answer is compared with what a new server answers to that request alone, and look-ups are compared "
            "with the resolved registry; non-trivial when at least two requests were answered")
    assumptions = ["requests still unanswered when the client closes its end may be dropped (the protocol library does that)", "the SDK's own protocol handling (rmcp) is real code but not judged beyond request and answer"]

    def case(self, rng, tier, idx):
        while True:
            files, reg = reggen.gen(rng, size=rng.choice([0.5, 1.0, 2.0]))[:2]
            if any(names_of(reg).values()):
                break
        names = names_of(reg)
        files = dict(files)
        argv = ["registry", "mcp", "-r", "reg"]
        if rng.random() < 0.4:
            argv.append("--v2")
        if rng.random() < 0.2:
            argv += ["--namespace-separator", rng.choice(["_", "."])]
        if rng.random() < 0.25:
            argv += ["--advice-policies", "adv"]
            files.update(otlp_adv(rng))
        reqs = [tool(rng, names) for _ in range(rng.choice([1, 3, 6, 10, 14]))]
        if len(reqs) > 2 and rng.random() < 0.6:
            # the same request again, or one that differs in one argument only
            for _ in range(rng.randrange(1, 4)):
                i = rng.randrange(len(reqs))
                m, p = reqs[i]
                p = json.loads(json.dumps(p))
                a = p.get("arguments")
                if a and rng.random() < 0.7:
                    k = rng.choice(sorted(a))
                    if k == "samples" and isinstance(a[k], list):
                        a[k] = [sample(rng, names) for _ in a[k]]
                    elif k == "limit":
                        a[k] = rng.choice([1, 3, 50])
                    elif isinstance(a[k], str) and k not in ("type", "stability", "output") or p["name"].startswith("get_"):
                        a[k] = words(rng, names)
                    elif p["name"] == "search":
                        a["type"] = rng.choice(["attribute", "metric", "all"])
                if p.get("name") == "search" and rng.random() < 0.6:
                    # one argument added, removed or changed
                    a = json.loads(json.dumps(reqs[i][1]["arguments"]))
                    k = rng.choice(["query", "type", "stability", "stability", "limit"])
                    if a.pop(k, None) is None or rng.random() < 0.5:
                        a[k] = {"query": words(rng, names), "type": rng.choice(["attribute", "metric", "span"]), "stability": rng.choice(["stable", "development", "beta"]), "limit": rng.choice([1, 2, 50])}[k]
                    p["arguments"] = a
                reqs.insert(rng.randrange(i, len(reqs) + 1), (m, p))
        ids = ["%s%d" % (rng.choice(["r", "q"]), 100 + i) if rng.random() < 0.5 else 100 + i for i in range(len(reqs))]
        steps = []
        for k in range(self.k):
            ops = [["send", B(hello(rng.choice(PROTO)))], wait_for("init"), ["send", B(READY)]]
            style = rng.choice(["seq", "pipe", "group", "oneshot"])
            out = []
            slow = rng.random() < 0.3
            buf = b""
            for i, (m, p) in enumerate(reqs):
                b = line(ids[i], m, p)
                if rng.random() < 0.1:
                    b = READY + b
                if style == "oneshot":
                    buf += b
                    continue
                if rng.random() < 0.3 and len(b) > 2:
                    c = rng.randrange(1, len(b))
                    ops += [["send", B(b[:c])], ["sleep", 0, rng.choice([1000, 200000])], ["send", B(b[c:]), "r%d" % i]]
                else:
                    ops.append(["send", B(b), "r%d" % i])
                if slow and rng.random() < 0.4:
                    ops.append(["noread"])
                if style == "seq" or style == "group" and rng.random() < 0.4:
                    if slow:
                        ops += [["sleep", 1000, 3 * US], ["read"]]
                    out.append(i)
                    ops += [wait_for(ids[j]) for j in out]
                    out = []
                else:
                    out.append(i)
            if buf:
                ops.append(["send", B(buf), "all"])
                out = list(range(len(reqs)))
            early = rng.random() < 0.15
            ops.append(["read"])
            if not early:
                ops += [wait_for(ids[j]) for j in out]
                if rng.random() < 0.3:
                    ops.append(["sleep", 0, 40 * US])
            ops += [["mark", "eof"], ["shutwr"]]
            p = core.sched(rng, net=True)
            p.pop("jumps", None)
            if rng.random() < 0.15:
                p["freeze"] = [core.stall(rng) for _ in range(rng.choice([1, 1, 2]))]
            p["latency_us"] = rng.choice([[1, 5], [50, 400], [100, 20000]])
            if rng.random() < 0.4:
                p["sndbuf"] = rng.choice([512, 4096, 65536])
            p["actors"] = [{"name": "io", "type": "stdio", "ops": ops}]
            steps.append({"argv": argv, "plan": p, "fresh": 1, "early": early})
        steps[0].pop("fresh")
        return {"sc": {"files": files, "steps": steps}, "meta": {"argv": " ".join(argv), "reqs": reqs, "ids": ids}}

    # ---- the answers of a server that is asked nothing else
    def alone(self, slot, case, argv, m, p):
        ops = [["send", B(hello())], wait_for("init"), ["send", B(READY)], ["send", B(line("alone", m, p))], wait_for("alone"), ["shutwr"]]
        r = self.ref(slot, "alone", {"files": case["sc"]["files"], "steps": [{"argv": argv, "plan": core.calm(actors=[{"name": "io", "type": "stdio", "ops": ops}])}]})[0]
        a = self.answers(r)[0]
        return r, [x for x in a if x.get("id") == "alone"]

    @staticmethod
    def answers(r):
        data = b"".join(b for _, b in sim.rx_bytes(r.log).get(("io", 0), []))
        out, bad = [], []
        ls = data.split(b"\n")
        if ls[-1]:
            bad.append(ls[-1])
        for l in ls[:-1]:
            try:
                d = json.loads(l)
                assert isinstance(d, dict)
                out.append(d)
            except Exception:
                bad.append(l)
        return out, bad

    @staticmethod
    def body(a):
        return {k: v for k, v in a.items() if k != "id"}

    def run(self, slot, case):
        out = core.Outcome()
        m = case["meta"]
        argv = case["sc"]["steps"][0]["argv"]
        want = {}
        for i, (meth, par) in enumerate(m["reqs"]):
            r, a = self.alone(slot, case, argv, meth, par)
            if not self.answers(r)[0] and r.rc != 0:
                if not core.unresolvable(self, slot, case, out, r):
                    return out
                out.nontrivial = False
                out.cover = ["registry not served"]
                return out
            if len(a) != 1:
                out.fail("alone", "asked alone, %s %s got %d answers (exit code %s): %s" % (meth, json.dumps(par)[:300], len(a), r.rc, r.text("err")[-300:]))
                out.results.append(r)
                return out
            want[i] = self.body(a[0])
        self.lookups(slot, case, out, want)
        if out.viol:
            return out
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        out.nontrivial = len(m["reqs"]) > 1
        for st, r in zip(case["sc"]["steps"], rs):
            ops = st["plan"]["actors"][0]["ops"]
            if r.special:
                out.fail("hang", "the server did not end: %s: %s" % (r.special, r.text("err")[-300:]))
                return out
            got, bad = self.answers(r)
            if bad:
                out.fail("garbage", "standard output carries something that is not a message: %r" % bad[0][:300])
                return out
            if r.rc != 0:
                out.fail("exit", "the session ended with exit code %s: %s" % (r.rc, r.text("err")[-500:]))
                return out
            seen = {}
            for a in got:
                if "id" not in a:
                    continue
                seen.setdefault(json.dumps(a["id"]), []).append(a)
            early = st.get("early")
            for i, id in enumerate(m["ids"]):
                a = seen.pop(json.dumps(id), [])
                if len(a) > 1:
                    out.fail("twice", "request %s %s was answered %d times" % (id, m["reqs"][i][0], len(a)))
                    return out
                if not a and not early:
                    out.fail("unanswered", "request %s %s was not answered" % (id, json.dumps(m["reqs"][i])[:300]))
                    return out
                if a and self.body(a[0]) != want[i]:
                    x, y = json.dumps(want[i]), json.dumps(self.body(a[0]))
                    n = next((k for k, (c, d) in enumerate(zip(x, y)) if c != d), 0)
                    out.fail("other", "%s %s is answered differently in this session: %s instead of %s" % (m["reqs"][i][0], json.dumps(m["reqs"][i][1])[:200], y[max(0, n - 60):n + 200], x[max(0, n - 60):n + 200]))
                    return out
            seen.pop('"init"', None)
            if seen:
                out.fail("unasked", "answers to requests that were never sent: %s" % sorted(seen)[:5])
                return out
            out.cover += ["early" if early else "complete"]
        out.cover += sorted({(p.get("name") or meth) for meth, p in m["reqs"]})
        return out

    # ---- look-ups against the resolved registry
    def lookups(self, slot, case, out, want):
        """What a search lists can be looked up, and vice versa."""
        m = case["meta"]
        argv = case["sc"]["steps"][0]["argv"]
        for i, (meth, par) in enumerate(m["reqs"]):
            if par.get("name") != "search" or "result" not in want[i] or want[i]["result"].get("isError"):
                continue
            d = json.loads(want[i]["result"]["content"][0]["text"])
            if d["count"] != len(d["results"]) or d["total"] < d["count"]:
                out.fail("search", "search reports count %s, total %s and lists %d" % (d["count"], d["total"], len(d["results"])))
            for x in d["results"][:3]:
                t = x.get("result_type") or x.get("type")
                if t not in ("attribute", "metric", "span", "event", "entity"):
                    t = next((k for k in ("attribute", "metric", "span", "event", "entity") if k in x), None)
                body = {k: v for k, v in x.items() if k not in ("score", "result_type")}
                out.cover.append("listed:%s" % t)
                if t is None:
                    continue
                key = {"attribute": "key", "metric": "name", "event": "name"}.get(t, "type")
                r, a = self.alone(slot, case, argv, "tools/call", {"name": "get_" + t, "arguments": {key: body.get(key)}})
                txt = a[0]["result"]["content"][0]["text"] if a and "result" in a[0] else str(a)
                try:
                    e = json.loads(txt)
                except ValueError:
                    e = None
                if e != body:
                    out.fail("lookup", "search lists the %s %s, but get_%s answers %s" % (t, body.get(key), t, txt[:300]))
                    return

    def shrink(self, case):
        st = case["sc"]["steps"]
        if len(st) > 1:
            for i in range(len(st)):
                c = sim.clone(case)
                c["sc"]["steps"] = [sim.clone(st[i])]
                yield c

    def describe(self, case):
        return {"argv": case["meta"]["argv"], "reqs": [[a, json.dumps(b)[:120]] for a, b in case["meta"]["reqs"]]}


def otlp_adv(rng):
    """A policy that reports what it sees."""
    return {"adv/p.rego": """package live_check_advice

import rego.v1

make_advice(t, l, c, m) := {"type": "advice", "advice_type": t, "advice_level": l, "advice_context": c, "message": m}

deny contains make_advice("seen", "information", {"k": key}, m) if {
    input.sample.attribute
    key := input.sample.attribute.name
    m := sprintf("attribute %s", [key])
}

deny contains make_advice("span_seen", "violation", {}, m) if {
    input.sample.span
    m := sprintf("span %s with %d attributes", [input.sample.span.name, count(input.sample.span.attributes)])
}
"""}


PROP = C19
