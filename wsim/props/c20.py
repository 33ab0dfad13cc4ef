"""C20: every HTTP API request is answered from the resolved registry, the same for every client at any time."""
import base64
import errno
import json
import random
import urllib.parse

from .. import core, otlp, reggen, sim
from .c19 import names_of, words

US = 1000000
PORT = 8080
TYPES = ["attribute", "metric", "span", "event", "entity"]
KEY = {"attribute": "key", "metric": "name", "event": "name", "span": "type", "entity": "type"}
PLURAL = {"attribute": "attributes", "metric": "metrics", "span": "spans", "event": "events", "entity": "entities"}


def B(b):
    return base64.b64encode(b).decode()


def q(**kw):
    return "?" + urllib.parse.urlencode(kw) if kw else ""


def search(rng, names):
    a = {}
    if rng.random() < 0.6:
        a["q"] = words(rng, names)
    if rng.random() < 0.5:
        a["type"] = rng.choice(["all"] + TYPES)
    if rng.random() < 0.3:
        a["stability"] = rng.choice(["stable", "development", "beta", "release_candidate", "nosuch"])
    if rng.random() < 0.3:
        a["hide_deprecated"] = rng.choice(["true", "false"])
    if rng.random() < 0.5:
        a["limit"] = rng.choice([0, 1, 3, 10, 1000, 100000])
    if rng.random() < 0.5:
        a["offset"] = rng.choice([0, 1, 2, 7, 1000])
    return "/api/v1/registry/search" + q(**a)


def target(rng, names):
    k = rng.choice(["search", "search", "search", "get", "get", "get", "get", "filter", "filter", "stats", "schema", "health", "odd", "openapi"])
    if k == "search":
        return search(rng, names)
    if k == "get":
        t = rng.choice(TYPES)
        n = rng.choice(names[t]) if names[t] and rng.random() < 0.8 else rng.choice(["no.such", "a b", "é", "app", "%", "x/y"])
        n = urllib.parse.quote(n, safe=rng.choice(["", ".", "._-"]))
        return "/api/v1/registry/%s/%s" % (t, n)
    if k == "filter":
        f = rng.choice([None, ".", ".registry.attributes | length", ".registry.metrics | map(.name)", ".registry.spans[]", "[.registry.events[] | {name, attributes: (.attributes | length)}]", ".nosuch", ".registry |", "1/0",
                        "error(\"x\")", ".registry.attributes | group_by(.stability) | map({(.[0].stability): length}) | add", "semconv_attributes", "[range(3000)] | length", "$__loc__", "input", "now|type", "env|length", "keys"])
        return "/api/v1/registry/filter" + (q(filter=f) if f else "")
    if k == "schema":
        return "/api/v1/schema/" + rng.choice(["MaterializedRegistryV2", "SemconvDefinitionV2", "LiveCheckSample", "Nope"])
    return {"stats": "/api/v1/registry/stats", "health": "/health", "openapi": "/api/v1/openapi.json",
            "odd": rng.choice(["/", "/index.html", "/api/v1/registry", "/api/v1/registry/search?limit=x", "/api/v1/registry/attribute/", "/../../etc/passwd", "/api/v1/registry/search?type=thing"])}[k]


def request(method, path, origin=None, close=False):
    return ("%s %s HTTP/1.1\r\nHost: localhost:%d\r\n%s%s\r\n" % (method, path, PORT, "Origin: %s\r\n" % origin if origin else "", "Connection: close\r\n" if close else "")).encode()


def view(resp):
    st, hd, body, ok = resp
    return {"status": st, "headers": {k: v for k, v in hd.items() if k in ("content-type", "content-length", "vary", "allow", "location") or k.startswith("access-control")}, "body": body.decode("utf8", "replace"), "complete": ok}


class C20(core.Prop):
    id = "C20"
    level = "exploration"
    quick_s = 35
    k = 3
    stub = "HTTP clients (scripted bytes)"
    rule = ("seeded registry served to up to six scripted clients that send look-ups, searches, filters, schema and malformed requests one by one, pipelined, chopped, over kept or new connections, with slow reading, resets, "
            "garbage and idle connections, failing accepts, signals, and seeded schedules; every answer is compared with what a new server answers to that request alone, and look-ups, pages and filters with the registry the "
            "server itself returns whole; non-trivial when at least two clients were answered")
    assumptions = ["no user interface is embedded in the binary under test", "filters are short-running"]

    def case(self, rng, tier, idx):
        while True:
            files, reg = reggen.gen(rng, size=rng.choice([0.5, 1.0, 2.0]))[:2]
            if any(names_of(reg).values()):
                break
        names = names_of(reg)
        argv = ["serve", "-r", "reg", "--bind", "127.0.0.1:%d" % PORT]
        if rng.random() < 0.4:
            argv.append("--v2")
        cors = rng.choice([None, None, "*", "http://a.test", "http://a.test, http://b.test"])
        if cors:
            argv += ["--cors-origins", cors]
        pool = []
        for _ in range(rng.choice([2, 4, 7])):
            m = rng.choice(["GET"] * 8 + ["HEAD", "POST", "OPTIONS"])
            pool.append([m, target(rng, names), rng.choice([None, None, "http://a.test", "http://c.test"]) if cors else None])
        if rng.random() < 0.4:
            # requests that differ in one parameter only
            m, p, o = rng.choice(pool)
            pool += [[m, p + ("&" if "?" in p else "?") + x, o] for x in rng.sample(["limit=1", "limit=2", "offset=1", "type=metric", "q=app", "filter=."], k=2)]
        # many clients that ask a few things at the same moments
        storm = rng.random() < 0.4
        if storm:
            f = [["GET", "/api/v1/registry/filter" + q(filter=rng.choice([".registry.attributes | length", "[range(300)] | length", ".registry.metrics | map(.name)", "[.registry.events[] | {name}]", ".registry.spans | map(.type)"])), None] for _ in range(2)]
            pool = rng.choice([f, f, [f[0]] + rng.sample(pool, k=min(2, len(pool))), [["GET", search(rng, names), None] for _ in range(3)], rng.sample(pool, k=2)])
        steps = []
        for k in range(self.k):
            actors = []
            for c in range(rng.choice([4, 6, 8]) if storm else rng.choice([1, 2, 3, 6])):
                ops = [] if storm else [["sleep", 0, 200000]]
                style = rng.choice(["seq", "pipe", "reconnect"]) if storm else rng.choice(["seq", "seq", "pipe", "chop", "reconnect", "close"])
                n = rng.choice([2, 4, 8]) if storm else rng.choice([1, 2, 4, 8])
                sent = []
                op = False
                slow = not storm and rng.random() < 0.25
                for i in range(n):
                    r = rng.randrange(len(pool))
                    head = pool[r][0] == "HEAD"
                    last = style == "close" or head
                    if not op:
                        ops.append(["connect", PORT])
                        conn = len([x for x in ops if x[0] == "connect"]) - 1
                        op = True
                    b = request(*pool[r], close=last)
                    sent.append([conn, r])
                    if slow and rng.random() < 0.5:
                        ops.append(["noread"])
                    if style == "chop" and len(b) > 3:
                        cut = rng.randrange(1, len(b))
                        ops += [["send", B(b[:cut])], ["sleep", 0, rng.choice([1000, 300000])], ["send", B(b[cut:]), "q"]]
                    else:
                        ops.append(["send", B(b), "q"])
                    if slow:
                        ops += [["sleep", 0, 2 * US], ["read"]]
                    if last:
                        ops += [["waiteof", 120 * US], ["close"]]
                        op = False
                    elif style != "pipe":
                        ops.append(["httpwait", 120 * US])
                        if style == "reconnect":
                            ops.append(["close"])
                            op = False
                if style == "pipe" and op:
                    ops += [["httpwait", 120 * US]] * sum(1 for s in sent if s[0] == conn)
                if op:
                    ops.append(["close"])
                ops.append(["mark", "done%d" % c])
                actors.append({"name": "c%d" % c, "type": "client", "ops": ops, "sent": sent})
            for k2 in range(rng.choice([0, 0, 1, 2])):
                kind = rng.choice(["idle", "half", "reset", "garbage", "rude", "eof"])
                b = request(*rng.choice(pool))
                ops = [["sleep", 0, 300000], ["connect", PORT]]
                ops += {"idle": [], "half": [["send", B(b[:len(b) // 2])]], "reset": [["send", B(b * 3)], ["sleep", 0, 3000], ["reset"]], "garbage": [["send", B(b"\x16\x03\x01\0\xff" * 30)], ["waiteof", 10 * US]],
                        "rude": [["noread"], ["send", B(request("GET", "/api/v1/openapi.json") * 40)]], "eof": [["send", B(b)], ["shutwr"], ["waiteof", 10 * US]]}[kind]
                actors.append({"name": "n%d" % k2, "type": "client", "ops": ops})
            nc = sum(1 for a in actors if a["name"][0] == "c")
            actors.append({"name": "end", "type": "client", "ops": [["waitmark", "done%d" % c, 3000 * US] for c in range(nc)] + [["sleep", 1000, 1000], ["signal", rng.choice([2, 15]), "end"]]})
            p = core.sched(rng, net=True)
            p.pop("jumps", None)
            if rng.random() < 0.15:
                p["freeze"] = [core.stall(rng) for _ in range(rng.choice([1, 1, 2]))]
            p["latency_us"] = rng.choice([[1, 5], [50, 400], [100, 20000]])
            if storm:
                p["latency_us"] = rng.choice([[1, 1], [1, 5]])
                p["malloc"] = rng.choice([20, 100, 500, 3000])
            if rng.random() < 0.3:
                p["sndbuf"] = rng.choice([2048, 16384])
            if rng.random() < 0.25:
                n = rng.randrange(1, 4)
                p["faults"] = [["accept", "-", n, n + rng.randrange(0, 3), rng.choice([errno.EMFILE, errno.ENFILE, errno.ENOBUFS]), 0]]
            p["actors"] = actors
            steps.append({"argv": argv, "plan": p, "fresh": 1})
        if rng.random() < 0.1:
            steps[-1]["plan"]["faults"] = [["bind", "-", 1, 1, rng.choice([errno.EADDRINUSE, errno.EACCES]), 0]]
            steps[-1]["nobind"] = 1
        steps[0].pop("fresh")
        return {"sc": {"files": dict(files), "steps": steps}, "meta": {"argv": " ".join(argv), "pool": pool}}

    def alone(self, slot, case, m, path, origin=None):
        ops = [["connect", PORT], ["send", B(request(m, path, origin, True))], ["waiteof", 300 * US], ["close"], ["sleep", 1000, 0], ["signal", 15, "end"]]
        argv = case["sc"]["steps"][0]["argv"]
        r = self.ref(slot, "alone", {"files": case["sc"]["files"], "steps": [{"argv": argv, "plan": core.calm(maxtime_us=900 * US, actors=[{"name": "c", "type": "client", "ops": ops}])}]})[0]
        data = b"".join(b for (a, c), v in sorted(sim.rx_bytes(r.log).items()) for _, b in v)
        return r, data

    def resp(self, m, data):
        if m == "HEAD":
            data = data.replace(b"content-length:", b"x-length:")
            rs = otlp.http_responses(data)
            for x in rs:
                if "x-length" in x[1]:
                    x[1]["content-length"] = x[1]["x-length"]
            return rs
        return otlp.http_responses(data)

    def run(self, slot, case):
        out = core.Outcome()
        pool = case["meta"]["pool"]
        want = {}
        for i, (m, p, o) in enumerate(pool):
            r, data = self.alone(slot, case, m, p, o)
            if not any(l.startswith("KILLED") for l in r.log):
                if r.special or not r.rc:
                    out.fail("alone", "the server ended by itself (%s, exit code %s): %s" % (r.special, r.rc, r.text("err")[-300:]))
                    out.results.append(r)
                    return out
                if not core.unresolvable(self, slot, case, out, r):
                    return out
                out.nontrivial = False
                out.cover = ["registry not served"]
                return out
            rs = self.resp(m, data)
            if len(rs) != 1 or not rs[0][3]:
                out.fail("alone", "%s %s alone got %d answers: %r %s" % (m, p, len(rs), data[:200], r.text("err")[-300:]))
                out.results.append(r)
                return out
            want[i] = view(rs[0])
            out.cover.append("%s %s" % (p.split("?")[0].split("/")[-2 if "/registry/" in p and p.count("/") > 4 else -1][:20], want[i]["status"]))
        self.model(slot, case, out, want)
        if out.viol:
            return out
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        for st, r in zip(case["sc"]["steps"], rs):
            if st.get("nobind"):
                if r.rc in (0, None) or r.special or not r.text("err").strip():
                    out.fail("bind", "the port could not be opened, but the command ended with %s %s: %s" % (r.special, r.rc, r.text("err")[-300:]))
                    return out
                out.cover.append("bind error")
                continue
            if not any(l.startswith("KILLED") for l in r.log):
                out.fail("crash", "the server ended by itself (%s, exit code %s): %s" % (r.special, r.rc, r.text("err")[-600:]))
                return out
            rx = sim.rx_bytes(r.log)
            nconn = {}
            conns = {}
            for l in r.log:
                if l.startswith("C "):
                    kv = sim.kvs(l)
                    conns.setdefault(kv["actor"], []).append(int(kv["conn"]))
            for a in st["plan"]["actors"]:
                for ci, conn in enumerate(conns.get(a["name"], [])):
                    data = b"".join(b for _, b in rx.get((a["name"], conn), []))
                    exp = [i for c, i in a.get("sent", []) if c == ci]
                    if "sent" not in a:
                        continue
                    got = self.split(data, [pool[i][0] for i in exp])
                    if len(got) != len(exp):
                        out.fail("unanswered", "client %s sent %s on a connection and got %d answers: %r" % (a["name"], [pool[i][:2] for i in exp], len(got), data[:100]))
                        return out
                    for i, g in zip(exp, got):
                        if not g[3]:
                            out.fail("truncated", "the answer to %s is incomplete: %r" % (pool[i], data[-100:]))
                            return out
                        v = view(g)
                        if v != want[i]:
                            x, y = json.dumps(want[i]), json.dumps(v)
                            n = next((k for k, (c, d) in enumerate(zip(x, y)) if c != d), 0)
                            out.fail("other", "%s is answered differently among other requests: %s instead of %s" % (pool[i], y[max(0, n - 100):n + 200], x[max(0, n - 100):n + 200]))
                            return out
                if "sent" in a and len(conns.get(a["name"], [])) != len({c for c, _ in a["sent"]}):
                    out.fail("unanswered", "client %s could not connect" % a["name"])
                    return out
        return out

    def split(self, data, methods):
        """Answers of one connection; a HEAD request is always the last one on its connection."""
        if methods and methods[-1] == "HEAD":
            rs = self.resp("HEAD", data) if len(methods) == 1 else None
            if rs is None:
                n = len(methods) - 1
                pos = 0
                out = []
                for _ in range(n):
                    x = otlp.http_responses(data[pos:])
                    if not x:
                        return out
                    out.append(x[0])
                    pos += data[pos:].find(b"\r\n\r\n") + 4 + len(x[0][2])
                return out + self.resp("HEAD", data[pos:])
            return rs
        return otlp.http_responses(data)

    # ---- the registry as the model
    def model(self, slot, case, out, want):
        r, data = self.alone(slot, case, "GET", "/api/v1/registry/filter?filter=.")
        rs = otlp.http_responses(data)
        if not rs or rs[0][0] != 200:
            out.fail("model", "the whole registry is not served: %r" % data[:300])
            return
        d = json.loads(rs[0][2])
        reg = (d[0] if isinstance(d, list) else d)["registry"]
        items = [(t, x) for t in TYPES for x in reg[PLURAL[t]]]
        for i, (m, p, o) in enumerate(case["meta"]["pool"]):
            w = want[i]
            if m != "GET":
                continue
            u = urllib.parse.urlsplit(p)
            parts = u.path.split("/")
            a = dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
            if u.path.startswith("/api/v1/registry/") and len(parts) == 6 and parts[4] in TYPES and parts[5]:
                t, name = parts[4], urllib.parse.unquote(parts[5])
                hit = [x for k, x in items if k == t and x[KEY[t]] == name]
                if w["status"] != (200 if hit else 404) and "/" not in name:
                    out.fail("lookup", "%s: status %s, the registry has %d such items" % (p, w["status"], len(hit)))
                elif hit and json.loads(w["body"]) not in hit:
                    out.fail("lookup", "%s: not the item of the registry: %s" % (p, w["body"][:300]))
            elif u.path == "/api/v1/registry/search" and w["status"] == 200:
                b = json.loads(w["body"])
                lim, off = min(int(a.get("limit", 50)), 1000), int(a.get("offset", 0))
                if "q" not in a or not a["q"]:
                    sel = [x for t, x in items if a.get("type", "all") in ("all", t) and (not a.get("stability") or x.get("stability") == a["stability"]) and (a.get("hide_deprecated") != "true" or not x.get("deprecated"))]
                    got = [strip(x) for x in b["results"]]
                    if b["total"] != len(sel) or got != sel[off:off + lim]:
                        out.fail("browse", "%s lists %d of %s items, the registry has %d: %s" % (p, len(got), b["total"], len(sel), [x for x in got if x not in sel][:1]))
                        return
                else:
                    full = {k: v for k, v in a.items() if k not in ("limit", "offset")}
                    r2, d2 = self.alone(slot, case, "GET", "/api/v1/registry/search" + q(limit=1000, **full))
                    f = json.loads(otlp.http_responses(d2)[0][2])
                    if f["total"] != b["total"] or f["results"][off:off + lim] != b["results"] or b["count"] != len(b["results"]):
                        out.fail("page", "%s is not the page of the complete result" % p)
                        return
                    known = [x for t, x in items]
                    wrong = [x for x in f["results"] if strip(x) not in known or a.get("type", "all") not in ("all", x.get("result_type")) or (a.get("stability") and x.get("stability") != a["stability"])
                             or (a.get("hide_deprecated") == "true" and x.get("deprecated"))]
                    if wrong or f["total"] != len(f["results"]):
                        out.fail("search", "%s lists what was not asked for: %s" % (p, str(wrong[:1])[:300]))
                        return

    def shrink(self, case):
        st = case["sc"]["steps"]
        if len(st) > 1:
            for i in range(len(st)):
                c = sim.clone(case)
                c["sc"]["steps"] = [sim.clone(st[i])]
                yield c
        elif len(st[0]["plan"]["actors"]) > 2:
            for i, a in enumerate(st[0]["plan"]["actors"]):
                if a["name"] == "end":
                    continue
                c = sim.clone(case)
                acts = c["sc"]["steps"][0]["plan"]["actors"]
                del acts[i]
                if a["name"][0] == "c":
                    end = acts[-1]["ops"]
                    end[:] = [o for o in end if o[:2] != ["waitmark", "done" + a["name"][1:]]]
                yield c

    def describe(self, case):
        return {"argv": case["meta"]["argv"], "requests": [" ".join(x[:2]) for x in case["meta"]["pool"]]}


def strip(x):
    return {k: v for k, v in x.items() if k not in ("score", "result_type")}


PROP = C20
