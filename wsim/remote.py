"""Registries, templates and policies behind simulated HTTP servers."""
import base64
import json
import random

from . import core, workloads

PORT = 8080
HOSTS = {"reg.test": "10.0.0.1", "cdn.test": "10.0.0.2", "reg.test.evil.test": "10.0.0.3"}


def b64(b):
    return base64.b64encode(b).decode()


def response(rng, status, body, framing, head="", ctype="application/octet-stream"):
    """The bytes of an HTTP/1.1 response and the offset of its body."""
    text = {200: "OK", 301: "Moved Permanently", 302: "Found", 303: "See Other", 307: "Temporary Redirect", 308: "Permanent Redirect", 401: "Unauthorized", 403: "Forbidden",
            404: "Not Found", 429: "Too Many Requests", 500: "Internal Server Error", 502: "Bad Gateway", 503: "Service Unavailable"}[status]
    h = "HTTP/1.1 %d %s\r\nContent-Type: %s\r\n%s" % (status, text, ctype, head)
    if framing == "cl":
        b = (h + "Content-Length: %d\r\n\r\n" % len(body)).encode()
        return b + body, len(b)
    if framing == "chunked":
        b = (h + "Transfer-Encoding: chunked\r\n\r\n").encode()
        n = len(b)
        i = 0
        while i < len(body):
            k = min(len(body) - i, rng.choice([1, 7, 100, 1000, 8192, 100000]))
            b += b"%x\r\n" % k + body[i:i + k] + b"\r\n"
            i += k
        return b + b"0\r\n\r\n", n
    b = (h + "Connection: close\r\n\r\n").encode()
    return b + body, len(b)


class Web:
    """What the servers offer: {(host, path): body}."""

    def __init__(self):
        self.docs = {}

    def put(self, path, body, host="reg.test"):
        self.docs[(host, path)] = body
        return "http://%s:%d%s" % (host, PORT, path)

    def json(self):
        return [[h, p, b64(b)] for (h, p), b in sorted(self.docs.items())]

    @staticmethod
    def of(j):
        w = Web()
        w.docs = {(h, p): base64.b64decode(b) for h, p, b in j}
        return w


def plain(rng, body):
    return {"data": b64(response(rng, 200, body, "cl")[0]), "end": "keep"}


def install(plan, rules, refuse=()):
    """rules: [(host, path, rule)] -> actors and hosts of the plan."""
    acts = {}
    for host, path, rule in rules:
        acts.setdefault(host, []).append(dict(rule, path=path))
    for h, ip in HOSTS.items():
        acts.setdefault(h, [])
    plan["hosts"] = dict(HOSTS)
    plan["actors"] = [dict({"name": h.replace(".", "_"), "type": "server", "port": PORT, "ip": HOSTS[h], "proto": "h1", "rules": rs},
                           **({"refuse": [0, 1 << 30]} if h in refuse else {})) for h, rs in sorted(acts.items())]
    return plan


def calm_plan(web):
    rng = random.Random(1)
    return install(core.calm(), [(h, p, plain(rng, b)) for (h, p), b in sorted(web.docs.items())])


def pick(argv, flag):
    return argv.index(flag) + 1 if flag in argv else None


def remote_workload(rng, policy=False):
    """A command some of whose inputs are remote. -> files, argv, meta, web, names: the substitution local name -> URL"""
    web, names = Web(), {}
    while True:
        r = rng.random()
        if r < 0.55:
            from .props import c01
            files, argv, meta = c01.workload(rng)
        elif r < 0.75:
            from .props import c02
            files, argv, meta = c02.workload(rng)
            meta = dict(meta, groups=[])
        elif r < 0.87:
            files, argv, meta = workloads.md_workload(rng)
        else:
            files, argv, meta = workloads.livecheck_files(rng)
        if policy and "pol" not in argv:
            continue
        if meta.get("error") in (None, "template") or rng.random() < 0.3:
            break
    files, argv = dict(files), list(argv)

    def archive(d, allow_sub=True):
        kind = rng.choice(["zip", "tar.gz"])
        sub = rng.choice([None, "model", "a/b"]) if allow_sub else None
        url = web.put(rng.choice(["/x/%s-1.0.%s", "/x/y/%s.%s", "/x/%s/registry.%s", "/x/%s/registry.%s"]) % (d, kind), workloads.pack(rng, files, d, kind, sub))
        for p in [p for p in files if p.startswith(d + "/")]:
            del files[p]
        return url + ("[%s]" % sub if sub else "")

    cands = ["reg"] if any(p.startswith("reg/") for p in files) else []
    deps = sorted({p.split("/")[0] for p in files if p.startswith("dep") and "/" in p})
    for flag, d in (("-t", "templates"), ("-p", "pol"), ("--baseline-registry", "base")):
        i = pick(argv, flag)
        if i is not None and argv[i] == d:
            cands.append(d)
    chosen = [c for c in cands if rng.random() < 0.6]
    if policy:
        chosen = ["pol"] + [c for c in chosen if c != "pol" and rng.random() < 0.4]
    dsel = [d for d in deps if rng.random() < 0.6] if deps else []
    if not chosen and not dsel:
        chosen = [rng.choice(cands)]
    for d in dsel:
        # the manifests of everything that depends on it
        url = archive(d)
        names[d] = url
        for p in list(files):
            if p.endswith("manifest.yaml"):
                m = json.loads(files[p])
                for x in m.get("dependencies", []):
                    if x.get("registry_path") == d:
                        x["registry_path"] = url
                files[p] = json.dumps(m)
    for d in chosen:
        if d == "pol" and rng.random() < (0.8 if policy else 0.4):
            p = rng.choice(sorted(p for p in files if p.startswith("pol/")))
            url = web.put("/x/" + p, files[p].encode())
            for p in [p for p in files if p.startswith("pol/")]:
                del files[p]
        else:
            url = archive(d)
        names[d] = url
        argv = [url if a == d and argv[k - 1] in ("-r", "-t", "-p", "--baseline-registry") else a for k, a in enumerate(argv)]
    return files, argv, dict(meta, remote=sorted(names), argv=" ".join(argv)), web
