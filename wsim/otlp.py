"""OTLP telemetry with identities, scripted clients, and the model the reports are judged with."""
import base64
import collections
import json

from . import h2, pb, sim

GRPC, ADMIN = 4317, 4320
KINDS = {0: "internal", 1: "internal", 2: "server", 3: "client", 4: "producer", 5: "consumer"}
CODES = {0: "unset", 1: "ok", 2: "error"}


# ------------------------------------------------------------------ registry and advice policy
def registry(rng):
    def at(i, t="string", **kw):
        d = {"id": i, "type": t, "brief": "b", "stability": "stable"}
        if t == "string":
            d["examples"] = ["x"]
        d.update(kw)
        return d
    groups = [
        {"id": "registry.app", "type": "attribute_group", "brief": "x", "attributes": [
            at("service.name"), at("app.uid"), at("app.count", "int", examples=[3]), at("app.old", deprecated={"reason": "obsoleted", "note": "gone"}),
            at("app.exp", stability="development"), at("app.flag", "boolean"),
            at("app.kind", {"members": [{"id": "a", "value": "a", "brief": "a", "stability": "stable"}, {"id": "b", "value": "b", "brief": "b", "stability": "stable"}]})]},
        {"id": "entity.host", "type": "entity", "name": "host", "stability": "stable", "brief": "h",
         "attributes": [at("host.name", requirement_level="required"), at("host.zone", requirement_level="recommended")]},
        {"id": "metric.app.requests", "type": "metric", "metric_name": "app.requests", "brief": "m", "stability": "stable", "instrument": "counter", "unit": "{request}",
         "entity_associations": ["host"], "attributes": [{"ref": "app.uid", "requirement_level": "required"}, {"ref": "app.kind", "requirement_level": "recommended"}]},
        {"id": "metric.app.memory", "type": "metric", "metric_name": "app.memory", "brief": "m", "stability": "stable", "instrument": "gauge", "unit": "By",
         "attributes": [{"ref": "app.uid"}]},
        {"id": "event.app.started", "type": "event", "name": "app.started", "brief": "e", "stability": "stable", "entity_associations": ["host"],
         "attributes": [{"ref": "app.uid"}]},
        {"id": "span.app.work", "type": "span", "span_kind": "internal", "brief": "s", "stability": "stable", "attributes": [{"ref": "app.uid"}]},
    ]
    return {"reg/manifest.yaml": json.dumps({"name": "x", "schema_url": "https://x.y/1.0.0"}), "reg/a.yaml": json.dumps({"groups": groups})}


CTX = """package live_check_advice

import rego.v1

svc := [a.value | some a in input.resource.attributes; a.name == "service.name"]

lib := [n | n := input.instrumentation_scope.name]

deny contains r if {
	r := {"type": "advice", "advice_type": "ctx", "advice_level": "information", "advice_context": {"svc": svc, "lib": lib}, "message": sprintf("svc=%v lib=%v", [svc, lib])}
}
"""


# ------------------------------------------------------------------ telemetry
def _attrs(rng, uid, n=None):
    pool = [["app.count", rng.randrange(100)], ["app.count", "notint"], ["app.kind", rng.choice(["a", "b", "zz"])], ["app.old", "x"], ["app.exp", "y"],
            ["app.flag", True], ["UnNamed", "v"], ["other.key", 1.5], ["other.list", ["p", "q"]], ["other.none", None], ["app", "ns"], ["other.num", -7],
            ["other.text", rng.choice(["", "ünïcode ✓", "a\"b\\c\n", "x" * 300])], ["other.big", rng.choice([2**53 - 1, -2**53, 0])], ["other.nested", [[1, 2], ["p"]]], ["other.empty", []],
            ["other.mixed", [1, "p", True]], ["other.nums", [1, -2]], ["other.real", rng.choice([0.0, -0.5, 0.0625, 123456789.125])]]
    at = rng.sample(pool, rng.randrange(0, 4) if n is None else n)
    seen, out = set(), []
    for k, v in at:
        if k not in seen:
            seen.add(k)
            out.append([k, v])
    out.insert(rng.randrange(len(out) + 1), ["app.uid", uid])
    return out


def _item(rng, sig, uid):
    if sig == "traces":
        return {"uid": uid, "name": rng.choice(["op", "GET /x", "op " + uid]), "kind": rng.randrange(0, 6), "attrs": _attrs(rng, uid),
                "events": [["ev%d" % i, _attrs(rng, uid, 1)] for i in range(rng.choice([0, 0, 1, 2]))],
                "links": [_attrs(rng, uid, 1) for _ in range(rng.choice([0, 0, 1]))],
                "status": rng.choice([None, None, [0, ""], [1, ""], [2, "boom " + uid]])}
    if sig == "metrics":
        ins = rng.choice(["gauge", "counter", "updowncounter", "histogram", "exphistogram"] if rng.random() < 0.93 else ["summary", "none"])
        if ins in ("summary", "none"):
            # no points are kept of these: the name identifies it
            return {"uid": uid, "name": "sum." + uid, "unit": "s", "inst": ins, "points": [[1, _attrs(rng, uid)]] if ins == "summary" else []}
        return {"uid": uid, "name": rng.choice(["app.requests", "app.memory", "app.unknown", "BadName"]), "unit": rng.choice(["By", "{request}", "", "s"]), "inst": ins,
                "points": [[rng.choice([rng.randrange(1000), rng.randrange(1000) / 8 + 0.0625]), _attrs(rng, uid), _point(rng, ins, uid)] for _ in range(rng.choice([1, 1, 1, 2, 4]))]}
    if sig == "logs":
        return {"uid": uid, "name": rng.choice(["", "app.started", "app.unknown.event"]), "attrs": _attrs(rng, uid), "body": rng.choice([None, "text " + uid]), "sev": rng.choice([1, 9, 17, 0, 24]),
                "text": rng.choice(["", "", "WARN"]), "traced": rng.random() < 0.2}
    return {"uid": uid, "fmt": rng.choice(["pprof", "jfr", ""]), "attrs": _attrs(rng, uid)}


def _point(rng, ins, uid):
    """The rest of a data point."""
    x = {}
    if rng.random() < 0.2:
        x["ex"] = [[rng.choice([3, 0.5]), _attrs(rng, uid, rng.randrange(2))] for _ in range(rng.choice([1, 1, 2]))]
    if "histogram" in ins and rng.random() < 0.5:
        x.update(count=rng.randrange(1, 99), min=rng.randrange(9) / 4, max=rng.randrange(9, 99) / 4)
        if ins == "histogram":
            x.update(buckets=[rng.randrange(9) for _ in range(4)], bounds=[0.0, 5.0, 10.5])
        else:
            x.update(scale=rng.choice([-3, 0, 2]), zero=rng.randrange(3))
            for k in ("positive", "negative"):
                if rng.random() < 0.5:
                    x[k] = [rng.choice([-2, 0, 5]), [rng.randrange(300) for _ in range(rng.randrange(4))]]
    return x


def request(rng, rid, big=False, sigs=("traces", "metrics", "logs", "profiles")):
    sig = rng.choice(sigs)
    groups = []
    for g in range(rng.choice([1, 1, 1, 2, 3])):
        res = None
        if rng.random() < 0.8:
            res = [["service.name", "svc-%d-%d" % (rid, g)]]
            if rng.random() < 0.5:
                res.append(["host.name", "h%d" % rid])
            if rng.random() < 0.3:
                res.append(["host.zone", "z"])
            if rng.random() < 0.2:
                res.append(["un.known", 1])
            if rng.random() < 0.4:
                # resources of one SDK: the same attributes around the name of the service
                res = [["telemetry.sdk.name", "otel"]] + res + [["telemetry.sdk.language", rng.choice(["rust", "rust", "go"])]]
        scopes = []
        for s in range(rng.choice([1, 1, 1, 2])):
            sc = ["lib-%d-%d-%d" % (rid, g, s), rng.choice(["", "1.0"]), [["lib.a", "v"]] if rng.random() < 0.2 else []] if rng.random() < 0.75 else None
            n = rng.choice([0, 1, 1, 1, 2, 3]) if not big else rng.choice([20, 60])
            scopes.append({"scope": sc, "url": "https://u/%d-%d-%d" % (rid, g, s) if rng.random() < 0.15 else "",
                           "items": [_item(rng, sig, "%d.%d.%d.%d" % (rid, g, s, i)) for i in range(n)]})
        groups.append({"res": res, "scopes": scopes})
    return {"rid": rid, "sig": sig, "groups": groups}


def encode(req):
    sig = req["sig"]
    table = []

    def one(it):
        if sig == "traces":
            return pb.span(it["name"], it["kind"], it["attrs"], it["events"], it["links"], it["status"])
        if sig == "metrics":
            return pb.metric(it["name"], it["unit"], it["inst"], it["points"])
        if sig == "logs":
            return pb.log_record(it["name"], it["attrs"], it["body"], it["sev"], it.get("text", ""), it.get("traced", False))
        idx = []
        for kv in it["attrs"]:
            table.append(kv)
            idx.append(len(table))
        return pb.profile(it["fmt"], idx)
    b = pb.export([(g["res"], [(tuple(s["scope"]) if s["scope"] else None, [one(i) for i in s["items"]], s["url"]) for s in g["scopes"]]) for g in req["groups"]])
    if sig == "profiles":
        b += pb.f_len(2, pb.profiles_dictionary(table))
    return b


# ------------------------------------------------------------------ expected samples (independent model of the conversion)
def _ea(at):
    return [[k, v] for k, v in at]


def expect(req):
    """The samples of one request in order: (kind, identity, content)."""
    out = []
    for g in req["groups"]:
        svc = [v for k, v in g["res"] or [] if k == "service.name"]
        if g["res"] is not None:
            out.append(("resource", None, {"attrs": _ea(g["res"]), "svc": svc, "lib": []}))
        for s in g["scopes"]:
            has = s["scope"] is not None or bool(s["url"])
            lib = [s["scope"][0] if s["scope"] else ""] if has else []
            if has:
                sc = s["scope"] or ["", "", []]
                out.append(("instrumentation_scope", None, {"name": sc[0], "version": sc[1], "schema_url": s["url"], "attrs": _ea(sc[2]), "svc": [], "lib": lib}))
            for it in s["items"]:
                c = {"svc": svc, "lib": lib}
                if req["sig"] == "traces":
                    c.update(name=it["name"], kind=KINDS[it["kind"]], status=None if it["status"] is None else [CODES[it["status"][0]], it["status"][1]],
                             attrs=_ea(it["attrs"]), events=[[n, _ea(a)] for n, a in it["events"]], links=[_ea(a) for a in it["links"]])
                    out.append(("span", it["uid"], c))
                elif req["sig"] == "metrics":
                    ins = it["inst"]
                    h = ins in ("histogram", "exphistogram")
                    pts = [] if ins in ("summary", "none") else [[float(p[0]) if h else p[0], _ea(p[1]), p[2] if len(p) > 2 else {}] for p in it["points"]]
                    c.update(name=it["name"], unit=it["unit"], instrument={"exphistogram": "histogram", "summary": "Summary", "none": "Unspecified"}.get(ins, ins), points=pts)
                    out.append(("metric", it["uid"], c))
                elif req["sig"] == "logs":
                    c.update(name=it["name"], sev=it["sev"], body=it["body"], text=it.get("text", ""), trace=("03" * 16, "04" * 8) if it.get("traced") else (None, None), attrs=_ea(it["attrs"]))
                    out.append(("log", it["uid"], c))
                else:
                    c.update(fmt=it["fmt"], attrs=_ea(it["attrs"]))
                    out.append(("profile", it["uid"], c))
    return out


def _ga(at):
    return [[a.get("name"), a.get("value")] for a in at or []]


def _more(p):
    x = {}
    for k, n in (("count", "count"), ("min", "min"), ("max", "max"), ("buckets", "bucket_counts"), ("bounds", "explicit_bounds"), ("scale", "scale"), ("zero", "zero_count")):
        if p.get(n) is not None:
            x[k] = p[n]
    for k in ("positive", "negative"):
        if p.get(k) is not None:
            x[k] = [p[k]["offset"], p[k]["bucket_counts"]]
    if p.get("exemplars"):
        x["ex"] = [[e["value"], _ga(e["filtered_attributes"])] for e in p["exemplars"]]
    return x


def observed(sample):
    """(kind, identity, content) of a sample in a report."""
    (kind, d), = sample.items()
    c = {}
    if kind == "resource":
        c = {"attrs": _ga(d["attributes"])}
    elif kind == "instrumentation_scope":
        c = {"name": d.get("name", ""), "version": d.get("version", ""), "schema_url": d.get("schema_url", ""), "attrs": _ga(d.get("attributes"))}
    elif kind == "span":
        st = d.get("status")
        c = {"name": d["name"], "kind": d["kind"], "status": None if st is None else [st["code"], st["message"]], "attrs": _ga(d["attributes"]),
             "events": [[e["name"], _ga(e["attributes"])] for e in d.get("span_events") or []], "links": [_ga(x["attributes"]) for x in d.get("span_links") or []]}
    elif kind == "metric":
        c = {"name": d["name"], "unit": d["unit"], "instrument": d["instrument"],
             "points": [[p["sum"] if "sum" in p else p.get("value"), _ga(p["attributes"]), _more(p)] for p in d.get("data_points") or []]}
    elif kind == "log":
        b = d.get("body")
        c = {"name": d["event_name"], "sev": d["severity_number"], "body": b, "text": d.get("severity_text") or "", "trace": (d.get("trace_id"), d.get("span_id")), "attrs": _ga(d["attributes"])}
    elif kind == "profile":
        c = {"fmt": d["original_payload_format"], "attrs": _ga(d["attributes"])}
    return kind, ident(kind, d), c


def _uid(at):
    for a in at or []:
        if a.get("name") == "app.uid":
            return a.get("value")


def ident(kind, d):
    if kind in ("span", "log", "profile"):
        return _uid(d.get("attributes"))
    if kind == "metric":
        for p in d.get("data_points") or []:
            return _uid(p.get("attributes"))
        if d["name"].startswith("sum."):
            return d["name"][4:]
    return None


def same(e, o):
    kind = e[0]
    for k, v in e[2].items():
        if k in ("svc", "lib"):
            continue
        w = o[2].get(k)
        if k == "body":
            if (v is None) != (w is None) or (v and v not in w):
                return "body %r instead of %r" % (w, v)
        elif k == "points":
            if len(v) != len(w) or any(a[1] != b[1] or a[0] != b[0] or any(b[2].get(k) != x for k, x in a[2].items()) or ("ex" in b[2]) != ("ex" in a[2]) for a, b in zip(v, w)):
                return "data points %r instead of %r" % (w, v)
        elif v != w:
            return "%s %r instead of %r" % (k, w, v)
    return None


def rid_of(o):
    kind, uid, c = o
    if uid is not None:
        n = str(uid).split(".")[0]
        return int(n) if n.isdigit() else None
    if kind == "resource":
        for k, v in c["attrs"]:
            if k == "service.name":
                return int(v.split("-")[1])
    if kind == "instrumentation_scope":
        n = c["name"]
        if n.startswith("lib-"):
            return int(n.split("-")[1])
        if c["schema_url"]:
            return int(c["schema_url"].split("/")[-1].split("-")[0])
    return None


# ------------------------------------------------------------------ reading reports
def parse_json_stream(t):
    dec = json.JSONDecoder()
    out, p = [], 0
    while True:
        while p < len(t) and t[p] in " \r\n\t":
            p += 1
        if p >= len(t):
            return out
        v, p = dec.raw_decode(t, p)
        out.append(v)


class Report:
    def __init__(self, text, fmt):
        """Any of: one report object, or a stream of samples and then statistics."""
        self.samples, self.stats = [], None
        if fmt == "yaml":
            import yaml

            class Loader(yaml.SafeLoader):
                pass
            Loader.add_multi_constructor("!", lambda ld, suffix, node: {suffix: ld.construct_mapping(node, deep=True) if isinstance(node, yaml.MappingNode) else ld.construct_scalar(node)})
            docs = [d for d in yaml.load_all(text, Loader=Loader) if d is not None]
        else:
            docs = parse_json_stream(text)
        for d in docs:
            if "samples" in d and "statistics" in d:
                self.samples += d["samples"]
                self.stats = d["statistics"]
            elif "total_entities" in d:
                self.stats = d
            else:
                self.samples.append(d)


def findings(x):
    """All findings below a value, in order."""
    if isinstance(x, dict):
        r = x.get("live_check_result")
        if isinstance(r, dict):
            for f in r.get("all_advice") or []:
                yield f
        for k, v in x.items():
            if k != "live_check_result":
                yield from findings(v)
    elif isinstance(x, list):
        for v in x:
            yield from findings(v)


def entities(x, key=None):
    """Number of checked entities (things carrying a live check result) by type."""
    n = 0
    if isinstance(x, dict):
        if "live_check_result" in x:
            n += 1
        for v in x.values():
            n += entities(v)
    elif isinstance(x, list):
        for v in x:
            n += entities(v)
    return n


# ------------------------------------------------------------------ clients
B = sim.b64


class Script:
    """Collects client actors and what they send."""

    def __init__(self, rng):
        self.rng = rng
        self.actors = []
        self.where = {}      # rid -> (actor, connection ordinal, stream id)
        self.never = set()   # rids whose message is never complete on the wire

    def client(self, name, reqs, style, gap=(0, 2000)):
        """One scripted client sending the requests in a given style; marks done-<name> at the end."""
        rng = self.rng
        ops = []
        conn = -1
        sid = -1

        def connect():
            nonlocal conn, sid
            conn += 1
            sid = -1
            ops.append(["connect", GRPC, "h2"])
            ops.append(["send", B(h2.client_open())])

        def frame(r):
            nonlocal sid
            sid += 2
            self.where[r["rid"]] = [name, conn, sid]
            return sid, h2.grpc_request(sid, pb.PATHS[r["sig"]], encode(r), split=rng.choice([None, None, 10, 200]))
        ops.append(["sleep", 0, rng.choice([0, 1000, 100000])])
        connect()
        waits = []
        for k, r in enumerate(reqs):
            if gap[1]:
                ops.append(["sleep", gap[0], gap[1]])
            if style == "seq":
                s, b = frame(r)
                ops.append(["send", B(b), "r%d" % r["rid"]])
                ops.append(["h2wait", s])
            elif style == "pipe":
                s, b = frame(r)
                ops.append(["send", B(b), "r%d" % r["rid"]])
                waits.append(s)
            elif style == "chop":
                s, b = frame(r)
                cuts = sorted(rng.randrange(1, len(b)) for _ in range(rng.randrange(1, 5)))
                last = 0
                for c in cuts + [len(b)]:
                    if c > last:
                        ops.append(["send", B(b[last:c])] + (["r%d" % r["rid"]] if c == len(b) else []))
                        ops.append(["sleep", 0, rng.choice([100, 5000])])
                    last = c
                ops.append(["h2wait", s])
            elif style == "reconnect":
                s, b = frame(r)
                ops.append(["send", B(b), "r%d" % r["rid"]])
                ops.append(["h2wait", s])
                ops.append([rng.choice(["close", "reset"])])
                if k + 1 < len(reqs):
                    connect()
            elif style == "abort":
                # send (part of) a request, then cut the connection without waiting
                s, b = frame(r)
                cut = rng.choice([len(b), len(b), rng.randrange(1, len(b))])
                if cut < len(b):
                    self.never.add(r["rid"])
                ops.append(["send", B(b[:cut]), "r%d" % r["rid"]])
                if rng.random() < 0.5:
                    ops.append(["sleep", 0, 3000])
                ops.append([rng.choice(["close", "reset", "reset"])])
                if k + 1 < len(reqs):
                    connect()
            elif style == "rst":
                s, b = frame(r)
                ops.append(["send", B(b), "r%d" % r["rid"]])
                if rng.random() < 0.5:
                    ops.append(["sleep", 0, 1000])
                ops.append(["send", B(h2.frame(3, 0, s, b"\0\0\0\x08"))])
            elif style == "halfclose":
                s, b = frame(r)
                ops.append(["send", B(b), "r%d" % r["rid"]])
                ops.append(["shutwr"])
                ops.append(["h2wait", s, 2000000])
                ops.append(["close"])
                if k + 1 < len(reqs):
                    connect()
            elif style == "noread":
                if k == 0:
                    ops.append(["noread"])
                s, b = frame(r)
                ops.append(["send", B(b), "r%d" % r["rid"]])
        for s in waits:
            ops.append(["h2wait", s])
        ops.append(["mark", "done-" + name])
        if style not in ("noread", "reconnect", "abort", "halfclose") and rng.random() < 0.3:
            ops.append(["close"])
        self.actors.append({"name": name, "type": "client", "ops": ops})

    def nuisance(self, name):
        """A misbehaving peer on the OTLP port; never delivers a valid request."""
        rng = self.rng
        ops = [["sleep", 0, rng.choice([0, 20000])]]
        for _ in range(rng.randrange(1, 4)):
            k = rng.choice(["garbage", "badproto", "badpath", "loris", "connclose", "http1", "badlen", "compressed"])
            ops.append(["connect", GRPC, "h2"])
            if k == "garbage":
                ops.append(["send", B(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 200))))])
            elif k == "http1":
                ops.append(["send", B(b"POST /v1/traces HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nhello")])
            elif k == "loris":
                ops.append(["send", B((h2.client_open() + h2.grpc_request(1, pb.PATHS["traces"], b"\n\3abc"))[:rng.randrange(1, 80)])])
                ops.append(["sleep", 0, 50000])
            elif k == "connclose":
                pass
            else:
                path, msg = pb.PATHS[rng.choice(["traces", "metrics", "logs", "profiles"])], b"\n\xff\xff\3"
                if k == "badpath":
                    path, msg = rng.choice(["/nope", path + "X", "/"]), b""
                b = h2.grpc_request(1, path, msg)
                if k == "badlen":
                    b = h2.frame(1, 4, 1, h2.grpc_request(1, path, b"")[9:-14]) + h2.frame(0, 1, 1, b"\0\x7f\xff\xff\xffab")
                if k == "compressed":
                    b = h2.frame(1, 4, 1, h2.grpc_request(1, path, b"")[9:-14]) + h2.frame(0, 1, 1, b"\1\0\0\0\2ab")
                ops.append(["send", B(h2.client_open() + b)])
                ops.append(["h2wait", 1, 500000])
            ops.append([rng.choice(["close", "reset", "close"])])
        if rng.random() < 0.3:
            ops.append(["connect", GRPC, "h2"])
            ops.append(["send", B(h2.client_open()[:rng.choice([3, 20, 33])])])   # stays open for ever
        ops.append(["mark", "done-" + name])
        self.actors.append({"name": name, "type": "client", "ops": ops})

    def stop(self, kind, after, name="stopper", delay=(0, 1000), wait=True, extra=()):
        """after: list of actors to wait for (None: stop at a random time)."""
        ops = []
        if kind == "post" or after is None:
            # reading the admin port proves that the receiver (and, nearly, its signal handlers) is up
            ops.append(["connect", ADMIN])
            ops.append(["send", B(b"GET /health HTTP/1.1\r\nHost: x\r\n\r\n"), "health"])
            ops.append(["httpwait"])
        for a in after or []:
            ops.append(["waitmark", "done-" + a])
        ops.append(["sleep", delay[0], delay[1]])
        ops += list(extra)
        if kind == "post":
            ops.append(["mark", "stop"])
            ops.append(["send", B(b"POST /stop HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n"), "stop"])
            if wait:
                ops.append(["httpwait"])
        else:
            ops.append(["signal", 2 if kind == "sigint" else 1, "stop"])
        self.actors.append({"name": name, "type": "client", "ops": ops})


STYLES = ["seq", "seq", "pipe", "pipe", "chop", "reconnect", "abort", "rst", "halfclose", "noread"]


# ------------------------------------------------------------------ history
class History:
    """What clients saw: connections, sends, acknowledgements, stop, exit."""

    def __init__(self, r, where, never=()):
        conns = collections.defaultdict(list)
        self.tx, self.ack, self.acktime, self.txtime = {}, {}, {}, {}
        self.stop = self.stop_t = self.exit_t = self.listen_t = None
        self.code = None
        done = {}
        for i, l in enumerate(r.log):
            if l.startswith("TX "):
                d = l.split()
                tag = d[-1][4:]
                if tag.startswith("r") and tag[1:].isdigit():
                    self.tx[int(tag[1:])] = i
                    self.txtime[int(tag[1:])] = int(d[1])
            elif l.startswith("C "):
                d = l.split()
                conns[d[2][6:]].append(int(d[3][5:]))
            elif l.startswith("H2DONE "):
                d = sim.kvs(l)
                done.setdefault((d["actor"], int(d["conn"]), int(d["sid"])), (i, int(l.split()[1])))
            elif l.startswith("M ") and l.endswith("mark=stop") and self.stop is None:
                self.stop, self.stop_t = i, int(l.split()[1])
            elif l.startswith("EXIT "):
                self.exit_t = int(l.split()[1])
                self.code = int(l.split("code=")[1])
            elif l.startswith("N listen %d " % GRPC) and self.listen_t is None:
                self.listen_t = int(l.split("t=")[1])
        rx = sim.rx_bytes(r.log)
        streams = {}
        self.status = {}
        for rid, (a, ci, sid) in where.items():
            rid = int(rid)
            if ci >= len(conns[a]):
                continue
            cid = conns[a][ci]
            k = (a, cid)
            if k not in streams:
                streams[k] = h2.decode_stream(b"".join(x for _, x in rx.get(k, [])))[0]
            s = streams[k].get(sid)
            if not s:
                continue
            st = [v for n, v in s["headers"] if n == "grpc-status"]
            self.status[rid] = st[-1] if st else ("rst%s" % s["rst"] if s["rst"] is not None else None)
            if s["end"] and st and st[-1] == "0" and (a, cid, sid) in done:
                self.ack[rid], self.acktime[rid] = done[(a, cid, sid)]
        self.sent = set(self.tx) - set(int(x) for x in never)

    def guaranteed(self, timeout_ns=None):
        """Requests that must be in the report."""
        if self.stop is not None:
            return {r for r, i in self.ack.items() if i < self.stop}
        if timeout_ns is None:
            return set(self.ack)
        out = set()
        for r, t in self.acktime.items():
            base = [self.txtime[q] for q in self.ack if self.acktime[q] <= self.txtime[r]] + [self.listen_t]
            if t < max(base) + timeout_ns:
                out.add(r)
        return out


def judge_report(rep, reqs, must, may):
    """-> list of (key, message): every guaranteed request exactly once and whole, nothing else."""
    exp = {r["rid"]: expect(r) for r in reqs}
    got = collections.defaultdict(list)
    bad = []
    last = None
    for s in rep.samples:
        o = observed(s)
        rid = rid_of(o)
        if rid is None:
            # a sample without identity (a resource or scope without a name): belongs to the request around it
            bad.append(("alien", "the report contains a sample nobody sent: %s" % json.dumps(s)[:300]))
            continue
        got[rid].append((o, s))
    for rid, os_ in got.items():
        if rid not in exp or rid not in may:
            bad.append(("phantom", "the report contains request %s that was never completely sent: %s" % (rid, os_[0][0])))
            continue
        e = exp[rid]
        if len(os_) != len(e):
            n = "more than once" if len(os_) > len(e) else "in part"
            bad.append(("partial", "request %d is reported %s: %d samples instead of %d (%s instead of %s)" %
                        (rid, n, len(os_), len(e), [x[0][:2] for x in os_], [x[:2] for x in e])))
            continue
        for a, (b, _) in zip(e, os_):
            d = "kind %s/%s instead of %s/%s" % (b[0], b[1], a[0], a[1]) if a[:2] != b[:2] else same(a, b)
            if d:
                bad.append(("altered", "request %d: sample %s reported altered: %s" % (rid, a[:2], d)))
                break
    for rid in sorted(must):
        if exp[rid] and rid not in got:
            bad.append(("lost", "request %d (%s) was acknowledged before the stop but is not in the report" % (rid, [r["sig"] for r in reqs if r["rid"] == rid][0])))
    return bad


def judge_context(rep, reqs):
    """Each finding must be computed with the resource and scope of its own sample (policy CTX)."""
    exp = {}
    for r in reqs:
        for e in expect(r):
            if e[1] is not None:
                exp[e[1]] = e
    bad = []
    for s in rep.samples:
        o = observed(s)
        if o[1] is None or o[1] not in exp:
            continue
        e = exp[o[1]]
        want = (e[2]["svc"], e[2]["lib"])
        n = 0
        for f in findings(s):
            if f.get("id") == "ctx":
                n += 1
                c = f.get("context") or {}
                if (c.get("svc"), c.get("lib")) != want:
                    bad.append(("context", "sample %s/%s was checked with resource %s scope %s instead of %s %s" % (o[0], o[1], c.get("svc"), c.get("lib"), want[0], want[1])))
                    break
        if not n:
            bad.append(("context", "sample %s/%s has no finding of the context policy" % o[:2]))
    return bad


def judge_stats(rep, code, fail_on="violation"):
    st = rep.stats
    bad = []
    if st is None:
        return bad
    fs = [f for s in rep.samples for f in findings(s)]
    lv = collections.Counter(f.get("level") for f in fs)
    if st.get("total_advisories") != len(fs):
        bad.append(("stats", "statistics count %s findings, the samples carry %d" % (st.get("total_advisories"), len(fs))))
    if {k: v for k, v in (st.get("advice_level_counts") or {}).items() if v} != dict(lv):
        bad.append(("stats", "statistics by level %s, the samples carry %s" % (st.get("advice_level_counts"), dict(lv))))
    ty = collections.Counter(f.get("id") for f in fs)
    if {k: v for k, v in (st.get("advice_type_counts") or {}).items() if v} != dict(ty):
        bad.append(("stats", "statistics by type %s, the samples carry %s" % (st.get("advice_type_counts"), dict(ty))))
    n = sum(entities(s) for s in rep.samples)
    if st.get("total_entities") != n:
        bad.append(("stats", "statistics count %s entities, the report has %d" % (st.get("total_entities"), n)))
    if code is not None and fail_on:
        order = ["information", "improvement", "violation"]
        want = 1 if any(order.index(l) >= order.index(fail_on) for l in lv if l in order) else 0
        if code != want:
            bad.append(("exit", "exit code %d although the findings by level are %s (--fail-on %s)" % (code, dict(lv), fail_on)))
    return bad


# ------------------------------------------------------------------ HTTP/1 responses as a client sees them
def http_responses(data):
    """-> [(status, headers, body, complete)]"""
    out = []
    p = 0
    while p < len(data):
        e = data.find(b"\r\n\r\n", p)
        if e < 0:
            out.append((None, {}, data[p:], False))
            break
        lines = data[p:e].decode("latin1").split("\r\n")
        st = int(lines[0].split()[1]) if lines[0].startswith("HTTP/1") else None
        hd = {}
        for l in lines[1:]:
            k, _, v = l.partition(":")
            hd[k.strip().lower()] = v.strip()
        p = e + 4
        if "chunked" in hd.get("transfer-encoding", ""):
            body = b""
            ok = False
            while True:
                q = data.find(b"\r\n", p)
                if q < 0:
                    break
                n = int(data[p:q].split(b";")[0], 16)
                if len(data) < q + 2 + n + 2:
                    body += data[q + 2:]
                    p = len(data)
                    break
                body += data[q + 2:q + 2 + n]
                p = q + 2 + n + 2
                if n == 0:
                    ok = True
                    break
            out.append((st, hd, body, ok))
            if not ok:
                break
        else:
            n = int(hd.get("content-length", "0"))
            out.append((st, hd, data[p:p + n], len(data) - p >= n))
            p += n
    return out
