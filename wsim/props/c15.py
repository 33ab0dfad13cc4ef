"""C15: a remote input is used completely or not at all, and a server can never hang the command."""
import errno
import json
import random

from .. import core, remote, sim
from .c01 import norm_err
from .fsbase import fs_ops

SLOW_S = 690        # what one request may take: connecting, the response, the rest of its body


def view(r):
    return {"exit code": r.rc, "stdout": r.text("out"), "files": r.norm_files(), "diagnostics": norm_err(r.text("err"))}


def split(uri):
    host, path = uri.split("[")[0][len("http://"):].split("/", 1)
    return host.split(":")[0], "/" + path


def garbage(rng, body):
    k = rng.choice(["html", "empty", "head", "tail", "json"])
    if k == "html":
        return b"<html><body>Please sign in</body></html>"
    if k == "json":
        return b'{"message": "Not Found"}'
    if k == "empty":
        return b""
    n = rng.randrange(0, max(1, len(body) - 30))
    return body[:n] if k == "head" else body[len(body) - n:] if n else b""


class C15(core.Prop):
    id = "C15"
    level = "exploration"
    wall = 100
    quick_s = 40
    stub = "HTTP servers (byte level responses, no TLS)"
    rule = ("seeded command whose registry, dependencies, baseline, policies, templates or published package are fetched from simulated HTTP servers; runs with benign deliveries (any framing, "
            "redirects, pauses, short partitions) must equal the calm reference, runs with failing deliveries (cut, reset, stalled or refused connections, error statuses, redirect loops, "
            "wrong or truncated bodies, long partitions, disk errors and kills while storing the download) must fail with a diagnostic or equal it; every run must end within a bound of "
            "simulated time and leave no temporary files; non-trivial when a server was contacted")
    assumptions = ["a body whose end is only marked by closing the connection cannot be told from a truncated one unless its format can", "plain HTTP only: TLS is not simulated"]
    k = 4

    # ---- deliveries
    def benign(self, rng, web, plan):
        rules, kinds = [], set()
        wait = 0
        for (h, p), body in sorted(web.docs.items()):
            fr = rng.choice(["cl", "cl", "chunked", "eof"])
            end = "close" if fr == "eof" else rng.choice(["keep", "close"])
            data, off = remote.response(rng, 200, body, fr, "Connection: close\r\n" if end == "close" and fr != "eof" else "")
            rule = {"data": remote.b64(data), "end": end}
            kinds.add(fr)
            if rng.random() < 0.3:
                d = rng.choice([1000, 2000000, 20000000])
                wait += d
                rule["delay"] = d
                if rng.random() < 0.7:
                    rule.update(kind="gap", cut=rng.randrange(0, len(data)))
                kinds.add("slow")
            hops = rng.choice([0, 0, 0, 1, 2, 4])
            at = (h, p)
            for i in range(hops):
                nh = rng.choice(sorted(remote.HOSTS))
                np = "/hop%d%s" % (i, p)
                absolute = nh != at[0] or rng.random() < 0.5
                loc = "http://%s:%d%s" % (nh, remote.PORT, np) if absolute else np
                rd = remote.response(rng, rng.choice([301, 302, 303, 307, 308]), rng.choice([b"", b"moved"]), "cl", "Location: %s\r\n" % loc)[0]
                rules.append((at[0], at[1], {"data": remote.b64(rd), "end": "keep"}))
                at = (nh, np)
                kinds.add("redirect")
            rules.append((at[0], at[1], rule))
        remote.install(plan, rules)
        if rng.random() < 0.25:
            plan["partitions"] = [[rng.choice(plan["actors"])["name"], rng.choice([0, rng.randrange(100000)]), rng.choice([100000, 5000000, 20000000])]]
            kinds.add("partition")
        return sorted(kinds)

    def faulty(self, rng, web, plan, ref):
        kinds = self.benign(rng, web, plan) if rng.random() < 0.4 else None
        if kinds is None:
            remote.install(plan, [(h, p, remote.plain(rng, b)) for (h, p), b in sorted(web.docs.items())])
        plan.pop("partitions", None)
        h, p = rng.choice(sorted(web.docs))
        body = web.docs[(h, p)]
        act = [a for a in plan["actors"] if a["name"] == h.replace(".", "_")][0]
        kind = rng.choice(["cut", "cut", "cut", "cut", "status", "status", "loop", "lost", "refuse", "dns", "garbage", "garbage", "partition", "disk", "disk", "disk", "oom", "longcl", "nolocation"])
        single = [x for x in sorted(web.docs) if x[1].endswith((".yaml", ".rego"))]
        if single and rng.random() < 0.65:
            kind, (h, p) = "cut", rng.choice(single)
            body = web.docs[(h, p)]
            act = [a for a in plan["actors"] if a["name"] == h.replace(".", "_")][0]
        rule = None
        if kind == "cut":
            plainfile = p.endswith((".yaml", ".rego"))
            data, off = remote.response(rng, 200, body, rng.choice(["cl", "chunked"] + ([] if plainfile else ["eof"])))
            n = rng.choice([0, rng.randrange(off), off, rng.randrange(off, len(data)), len(data) - 1])
            rules = p == "/x/policy.rego"
            if rng.random() < (0.9 if rules else 0.6):
                # after a line or paragraph: what has arrived may be a document of its own
                sep = rng.choice([b"\n", b"\n\n", b"\n\n", b"}\n"])
                if rules:
                    sep = b"}\n\n"
                at = [i + len(sep) for i in range(len(body)) if body.startswith(sep, i)]
                if at and plainfile:
                    k = at[0] if rng.random() < 0.4 else rng.choice(at)
                    if rng.random() < 0.4:
                        data, off = remote.response(rng, 200, body, "cl")
                        n = off + k
                    else:
                        data = remote.response(rng, 200, b"", "chunked")[0][:-5]
                        data += b"%x\r\n" % k + body[:k] + b"\r\n"
                        n = len(data)
                        data += b"0\r\n\r\n" if k == len(body) else b"%x\r\n" % (len(body) - k) + body[k:] + b"\r\n0\r\n\r\n"
            rule = {"data": remote.b64(data), "cut": n, "end": rng.choice(["close", "reset", "stall"]), "delay": rng.choice([0, 0, 1000, 5000000])}
        elif kind == "status":
            s = rng.choice([401, 403, 404, 429, 500, 502, 503])
            rule = {"data": remote.b64(remote.response(rng, s, body if rng.random() < 0.7 else b"error", rng.choice(["cl", "chunked"]))[0]), "end": "keep"}
        elif kind == "loop":
            rule = {"data": remote.b64(remote.response(rng, rng.choice([301, 302, 307]), b"", "cl", "Location: %s\r\n" % p)[0]), "end": "keep"}
        elif kind == "lost":
            loc = rng.choice(["http://nowhere.test:8080/x.zip", "http://cdn.test:8080/missing", "http://cdn.test:81/x", "/missing", "ftp://reg.test/x", "http://", "::"])
            rule = {"data": remote.b64(remote.response(rng, rng.choice([301, 302, 308]), b"", "cl", "Location: %s\r\n" % loc)[0]), "end": "keep"}
        elif kind == "nolocation":
            rule = {"data": remote.b64(remote.response(rng, 302, b"moved", "cl")[0]), "end": "keep"}
        elif kind == "refuse":
            act["refuse"] = [0, 1 << 30]
        elif kind == "dns":
            del plan["hosts"][h]
        elif kind == "garbage":
            rule = {"data": remote.b64(remote.response(rng, 200, garbage(rng, body), rng.choice(["cl", "chunked"] if p.endswith((".yaml", ".rego")) else ["cl", "chunked", "eof"]))[0]), "end": "close"}
        elif kind == "longcl":
            data, off = remote.response(rng, 200, body + b"x" * rng.choice([1, 100]), "cl")
            rule = {"data": remote.b64(data), "cut": off + len(body), "end": rng.choice(["close", "stall", "reset"])}
        elif kind == "partition":
            t0 = rng.choice([0, 0, rng.randrange(1, 50000)])
            plan["partitions"] = [[act["name"], t0, t0 + rng.choice([40, 100, 700, 5000]) * 1000000]]
        elif kind == "disk":
            ops = [x for x in fs_ops(ref, ("open", "write", "mkdir", "read", "close", "opendir", "readdir")) if "vdir_cache" in x[1]]
            if ops:
                c, path, n = rng.choice(ops)
                e = rng.choice({"open": [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC], "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, "short"],
                                "mkdir": [errno.ENOSPC, errno.EACCES, errno.EROFS], "close": ["crash"]}.get(c, [errno.EIO]))
                # temporary names are random: aim by class and position within the cache
                n = sum(1 for c2, p2, _ in ops[:ops.index((c, path, n)) + 1] if c2 == c)
                if rng.random() < 0.25:
                    e = rng.choice(["crash", "crash_after"])
                plan["faults"] = [[c, "vdir_cache", n, n if rng.random() < 0.6 or isinstance(e, str) else -1, e, rng.choice([0, 1, 100])]]
        elif kind == "oom":
            plan["faults"] = [[rng.choice(["connect", "recv", "send"]), "-", rng.choice([1, 1, 2, 3]), -1,
                               rng.choice([errno.ENETUNREACH, errno.EHOSTUNREACH, errno.ECONNRESET, errno.ENOBUFS, errno.ETIMEDOUT]), 0]]
        if rule is not None:
            rule["path"] = p
            if rng.random() < 0.3:
                # the n-th request of this path only
                rule["ord"] = rng.choice([0, 1, 2])
            act["rules"].insert(0, rule)
        return kind

    # ---- cases
    def case(self, rng, tier, idx):
        x = rng.random()
        if x < 0.2:
            case = self.package_case(rng)
        elif x < 0.3:
            case = self.rules_case(rng)
        else:
            files, argv, meta, web = remote.remote_workload(rng, policy=x < 0.4)
            case = {"sc": {"files": files, "steps": [{"argv": argv}]}, "meta": dict(meta, web=web.json())}
        st = case["sc"]["steps"][0]
        st["plan"] = core.calm()
        case["sc"]["steps"] = [st] + [{"argv": st["argv"], "fresh": 1, "pick": rng.randrange(1 << 40)} for _ in range(self.k)]
        for s in case["sc"]["steps"][1:]:
            s["plan"] = core.calm()
        return case

    def package_case(self, rng):
        """A published package, used as the main registry or as a dependency."""
        from .. import reggen
        files, reg, info = reggen.gen(rng, v2=True, dep=1, size=rng.choice([0.6, 1.0]))
        dep = rng.random() < 0.6 and "dep0/manifest.yaml" in files
        cmd = rng.choice(["resolve", "check", "stats"])
        argv = ["registry", cmd, "-r", "reg" if dep else "PKG", "--v2"] + (["--format", rng.choice(["json", "yaml"])] if cmd != "check" else [])
        return {"sc": {"files": files, "steps": [{"argv": argv}]},
                "meta": {"cmd": cmd, "fmt": "package-dep" if dep else "package", "v2": True, "deps": info["deps"], "error": None, "argv": " ".join(argv), "remote": ["package"], "web": [],
                         "pkg": "dep0" if dep else "reg", "uri": rng.choice(["resolved.yaml", "ABS", "CROSS"])}}

    def rules_case(self, rng):
        """A valid registry and one remote policy whose rules alone decide the outcome."""
        from .. import reggen
        v2 = rng.random() < 0.4
        files, reg, info = reggen.gen(rng, v2=v2, dep=0, size=rng.choice([0.4, 0.8]))
        files = {p: t for p, t in files.items() if not p.startswith("pol/")}
        stage = "after_resolution" if v2 or rng.random() < 0.6 else "before_resolution"
        coll = "input.registry.attributes" if v2 else "input.groups"
        text = "package %s\n\nimport rego.v1\n\n" % stage
        n = rng.randrange(2, 5)
        fires = rng.randrange(1, n)
        for i in range(n):
            text += ("# rule %d\ndeny contains r if {\n\tx := %s[_]\n\tcontains(json.marshal(x), \"%s\")\n\tr := {\"id\": \"rule%d\", \"type\": \"semconv_attribute\", "
                     "\"category\": \"c\", \"group\": \"g\", \"attr\": \"a\"}\n}\n\n") % (i, coll, "no such text" if i < fires else "", i)
        web = remote.Web()
        url = web.put("/x/policy.rego", text.encode())
        cmd = rng.choice(["check", "check", "check", "resolve"]) if stage == "after_resolution" else "check"
        argv = ["registry", cmd, "-r", "reg", "-p", url] + (["--v2"] if v2 else []) + (["--diagnostic-format", rng.choice(["json", "ansi"])] if rng.random() < 0.4 else [])
        return {"sc": {"files": files, "steps": [{"argv": argv}]},
                "meta": {"cmd": cmd, "fmt": "rules", "v2": v2, "deps": 0, "error": None, "argv": " ".join(argv), "remote": ["rules"], "web": web.json()}}

    def prepare(self, slot, case):
        """Turn the seeded choices into explicit plans."""
        m, sc = case["meta"], case["sc"]
        if "pkg" in m:
            name = {"resolved.yaml": "resolved.yaml", "ABS": "http://reg.test:8080/p/1.0/resolved.yaml", "CROSS": "http://cdn.test:8080/blobs/r.yaml"}[m["uri"]]
            r = self.ref(slot, "pkg", {"files": sc["files"], "steps": [{"argv": ["registry", "package", "-r", m["pkg"], "--v2", "-o", "out", "--resolved-registry-uri", name],
                                                                        "plan": core.calm()}]})[0]
            if r.rc != 0:
                return "package"
            web = remote.Web()
            url = web.put("/p/1.0/manifest.yaml", r.files["out/manifest.yaml"])
            if m["uri"] == "CROSS":
                web.put("/blobs/r.yaml", r.files["out/resolved.yaml"], "cdn.test")
            else:
                web.put("/p/1.0/resolved.yaml", r.files["out/resolved.yaml"])
            m["web"] = web.json()
            pkg = m.pop("pkg")
            for p in [p for p in sc["files"] if p.startswith(pkg + "/")]:
                del sc["files"][p]
            for p, t in list(sc["files"].items()):
                if p.endswith("manifest.yaml"):
                    d = json.loads(t)
                    for x in d.get("dependencies", []):
                        if x.get("registry_path") == pkg:
                            x["registry_path"] = url
                    sc["files"][p] = json.dumps(d)
            for st in sc["steps"]:
                st["argv"] = [url if a == "PKG" else a for a in st["argv"]]
        web = remote.Web.of(m["web"])
        st0 = sc["steps"][0]
        if "actors" not in st0["plan"]:
            st0["plan"] = remote.calm_plan(web)
            st0["plan"]["maxtime_us"] = 6 * 3600 * 10**6
        ref = None
        for st in sc["steps"][1:]:
            if "pick" not in st:
                continue
            if ref is None:
                ref = self.ref(slot, "ref", {"files": sc["files"], "steps": [st0]})[0]
                if ref.special:
                    return "ref"
            rng = random.Random(st.pop("pick"))
            p = core.sched(rng, net=True) if rng.random() < 0.7 else core.calm(seed=rng.randrange(1, 1 << 40))
            p.pop("jumps", None)
            p["hashseed"] = 1
            p["maxtime_us"] = 6 * 3600 * 10**6
            st["plan"] = p
            if rng.random() < 0.35:
                p.pop("eintr", None)    # the tar reader does not retry interrupted reads of the archive
                st["kind"] = "benign:" + "+".join(self.benign(rng, web, p))
            else:
                st["kind"] = self.faulty(rng, web, p, ref)
        return None

    def run(self, slot, case):
        out = core.Outcome()
        bad = self.prepare(slot, case)
        if bad:
            out.skip = "internal" if bad == "ref" else None
            out.nontrivial = False
            out.cover = [bad]
            return out
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        m = case["meta"]
        ref = rs[0]
        want = view(ref)
        out.cover = ["%s/exit%s" % (m["cmd"], ref.rc)] + ["remote:" + x for x in m["remote"]]
        out.nontrivial = any(l.startswith("H1SRV") for r in rs for l in r.log)
        if ref.special or ref.tmp:
            out.fail("ref", "with healthy servers the command ended with %s, leaving %s" % (ref.special or ref.rc, ref.tmp))
            return out
        for st, r in zip(case["sc"]["steps"][1:], rs[1:]):
            kind = st.get("kind", "?")
            out.cover.append(kind.split(":")[0] + ":" + ("same" if view(r) == want else "exit%s" % r.rc))
            killed = any(l.startswith("CRASH") for l in r.log)
            if r.special in ("DEADLOCK", "TIMELIMIT", "STEPLIMIT", "WALLTIMEOUT"):
                out.fail("hang", "%s: the command never ends (%s): %s" % (kind, r.special, self.how(st, r)))
                return out
            if killed:
                continue
            if r.special or r.rc not in (0, 1):
                out.fail("crash", "%s: the command crashed (%s %s): %s" % (kind, r.special, r.rc, r.text("err")[-600:]))
                return out
            tries = sum(1 for l in r.log if l.startswith(("H1SRV", "N connect"))) + 1
            if int(r.end.get("now", 0)) > tries * SLOW_S * 10**9:
                out.fail("slow", "%s: the command took %d simulated seconds for %d requests: %s" % (kind, int(r.end["now"]) // 10**9, tries, self.how(st, r)))
                return out
            # removing the folder needs to list it: an error there cannot be helped
            listing = any(f[0] in ("opendir", "readdir", "open") for f in st["plan"].get("faults", []))
            if r.tmp and not listing:
                out.fail("leftover", "%s: temporary files were left behind: %s" % (kind, r.tmp[:5]))
                return out
            got = view(r)
            if got == want:
                continue
            if kind.startswith("benign"):
                k = [x for x in want if got[x] != want[x]][0]
                out.fail("differs", "%s: the %s differs from a plain download: %s vs %s; %s" % (kind, k, str(want[k])[-500:], str(got[k])[-500:], self.how(st, r)))
                return out
            if r.rc == 0 and (want["exit code"] != 0 or got["stdout"] != want["stdout"] or got["files"] != want["files"]):
                out.fail("silent", "%s: the command succeeded with another result although a download failed: %s; %s" % (kind, r.text("err")[-500:], self.how(st, r)))
                return out
            if r.rc != 0 and not (r.text("err").strip() or r.text("out").strip()):
                out.fail("mute", "%s: the command failed without a message" % kind)
                return out
        return out

    def how(self, st, r):
        return "; ".join([l for l in r.log if l.startswith(("H1SRV", "N connect"))][:8]) + " " + str(st["plan"].get("partitions", "")) + str(st["plan"].get("faults", ""))

    def shrink(self, case):
        st = case["sc"]["steps"]
        if len(st) > 2:
            for i in range(1, len(st)):
                c = sim.clone(case)
                c["sc"]["steps"] = [st[0], sim.clone(st[i])]
                yield c
        for i, s in enumerate(st[1:], 1):
            for j, a in enumerate(s["plan"].get("actors", [])):
                for k, ru in enumerate(a["rules"]):
                    if ru.get("delay"):
                        c = sim.clone(case)
                        c["sc"]["steps"][i]["plan"]["actors"][j]["rules"][k]["delay"] = 0
                        yield c
        for f in sorted(case["sc"]["files"]):
            if f.endswith("manifest.yaml"):
                continue
            c = sim.clone(case)
            del c["sc"]["files"][f]
            yield c

    def describe(self, case):
        return {"argv": case["meta"]["argv"], "kinds": [s.get("kind") for s in case["sc"]["steps"][1:]]}


PROP = C15
