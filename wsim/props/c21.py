"""C21: a Git repository gives the tree of the requested branch, tag or commit, or an error."""
import base64
import errno
import json
import random
import re
from collections import Counter

from .. import core, git, remote, sim, workloads
from .c01 import norm_err
from .c15 import SLOW_S
from .fsbase import fs_ops

FLAGS = (("-r", "reg"), ("-t", "templates"), ("-p", "pol"), ("--baseline-registry", "base"))


def wrapped(t):
    """The text, possibly with line breaks in it."""
    return r"(?:[\s│]|\\n)*".join(re.escape(c) for c in t)


def flat(t, root, dirs, urls):
    """The text up to order, line breaks and the places the inputs come from."""
    t = re.sub(r"\x1b\[[0-9;]*m|\\u001b\[[0-9;]*m", "", t)
    for u in sorted(urls, key=len, reverse=True):
        t = re.sub(wrapped(u), "", t)
    gap = r"(?:[\s│]|\\n)*"
    t = re.sub("(?:%s|%s)" % (wrapped("<ROOT>"), wrapped(root)) + gap + wrapped("/h/.weaver/vdir_cache/repo") + gap + r"(?:<TMP>|(?:\w%s){6})" % gap + "(?:" + gap + "(?:%s|%s)" % (wrapped("/model"), wrapped("/a/b")) + r"(?=%s/))?" % gap, "", t)
    for d in dirs:
        t = re.sub(r"\b%s\b" % d, "", t)
    t = re.sub(r"\s|[│|]", "", re.sub(r"\\n|\n", " ", t))
    return "".join(sorted(re.sub(r"[\d/]", "", t)))


def decoy(rng, files):
    """Another state of the same folder, that gives another result."""
    files = dict(files)
    k = rng.choice(["drop", "bad", "extra", "word", "empty"])
    ps = sorted(p for p, v in files.items() if isinstance(v, bytes))
    if k == "drop" and len(ps) > 1:
        del files[rng.choice(ps)]
    elif k == "word":
        for p in ps:
            files[p] = files[p].replace(b"brief", b"brief_of_another_commit")
    elif k == "bad":
        files[rng.choice(ps)] = b"groups: [{]\n"
    elif k == "empty":
        files = {"note.md": b"nothing here\n"}
    else:
        files["zz_decoy.yaml"] = b"groups: 5\n"
        files["zz_decoy.rego"] = b"package {\n"
    return files


def hostile(rng, R, tree):
    """A tree like this one, whose entries try to leave the folder it is checked out to."""
    evil = R.put("blob", b"evil\n")
    up = b"../../../../"
    sub = R.rawtree([(b"100644", b"a.txt", evil), (b"100644", b"new.txt", evil)])
    k = rng.choice(["dots", "dots-tree", "slash", "absolute", "git", "git", "link-dir", "link-dir", "link-file", "link-git", "module", "dot", "upper"])
    e = R.entries(tree)

    def link(t):
        return R.put("blob", t)
    if k == "dots":
        new = [(b"100644", up + b"r/victim/new.txt", evil)]
    elif k == "dots-tree":
        t = R.rawtree([(b"40000", b"victim", sub)])
        for x in (b"r", b"..", b"..", b"..", b".."):
            t = R.rawtree([(b"40000", x, t)])
        new = R.entries(t)
    elif k == "slash":
        new = [(b"100644", b"x/../../" + up + b"r/victim/a.txt", evil), (b"100644", b"x/y", evil)]
    elif k == "absolute":
        new = [(b"100644", b"/wsim-escape/x.txt", evil)]
    elif k == "git":
        new = [(b"40000", rng.choice([b".git", b".GIT", b"git~1", b".git "]), R.rawtree([(b"100644", b"config", R.put("blob", b"[core]\n\thooksPath = /r/victim\n")), (b"40000", b"hooks", sub)]))]
    elif k == "link-dir":
        new = [(b"120000", b"lnk", link(rng.choice([up + b"r/victim", up + b"h", b".."]))), (b"40000", b"lnk", sub)]
    elif k == "link-file":
        new = [(b"120000", b"lnk", link(up + b"r/victim/a.txt")), (b"100644", b"lnk", evil)]
    elif k == "link-git":
        new = [(b"120000", b"lnk", link(b".git")), (b"40000", b"lnk", R.rawtree([(b"100644", b"config", evil)]))]
    elif k == "module":
        new = [(b"160000", rng.choice([b"lnk", b"..", up + b"r/victim2"]), "12" * 20)]
    elif k == "dot":
        new = [(b"40000", b".", sub), (b"100644", b"", evil)]
    else:
        new = [(b"120000", b"lnk", link(up + b"r/victim")), (b"40000", b"LNK", sub)]
    e += new
    if rng.random() < 0.8:
        e.sort(key=lambda x: x[1] + (b"/" if x[0] == b"40000" else b""))
    return k, R.rawtree(e)


NAMES = ["v1", "v1.0", "v1.0.0", "release/v1", "main", "master", "trunk", "feat/a-b", "v1.0-rc.1", "x"]


def repository(rng, files, sub, want, bad=None, R=None):
    """-> Repo, refspec or None. files: what the requested commit has in sub."""
    fresh = R is None
    R = R or git.Repo()
    pre = sub + "/" if sub else ""

    def whole(fs):
        t = {pre + p: b for p, b in fs.items()}
        if sub:
            t["README.md"] = b"readme\n"
            if rng.random() < 0.6:
                t[sub.split("/")[0] + "x/bad.yaml"] = b"groups: 5\n"
            if rng.random() < 0.4:
                t["other/" + sub + "/bad.yaml"] = b"groups: 5\n"
            if rng.random() < 0.3:
                t[".gitattributes"] = b"*.yaml text\n"
            if rng.random() < 0.3:
                t["tool/run"] = ("exec", b"#!/bin/sh\n")
            if rng.random() < 0.2:
                t["tool/link"] = ("link", rng.choice([b"../README.md", b"nowhere", b"run"]))
            if rng.random() < 0.2:
                t["tool/big.bin"] = bytes(rng.randrange(256) for _ in range(2000)) * 50
        return t
    commits, par = [], []
    n = rng.choice([1, 2, 2, 3, 4])
    at = rng.randrange(n)
    for i in range(n):
        if i == at:
            fs = dict(files)
            for p in fs:
                if rng.random() < 0.1:
                    fs[p] = ("exec", fs[p])
        else:
            fs = decoy(rng, files)
        t = R.tree(whole(fs))
        if bad is not None and i == at:
            k, t = hostile(rng, R, t)
            bad.append(k)
        elif rng.random() < 0.1:
            t = R.rawtree(sorted(R.entries(t) + [(b"160000", b"vendored", "12" * 20)], key=lambda x: x[1] + (b"/" if x[0] == b"40000" else b"")))
        c = R.commit(None, par, "change %d" % i, t)
        commits.append(c)
        par = [c]
    if want in ("head", "branch", "tag", "atag") and rng.random() < 0.5:
        # a side branch that was merged
        s = R.commit(whole(decoy(rng, files)), [commits[0]], "side")
        commits.append(s)
    target = commits[at]
    have = [x.split("/", 2)[2] for x in R.refs]
    names = [x for x in NAMES if not any(x == y or x.startswith(y + "/") or y.startswith(x + "/") for y in have)]
    names = rng.sample(names, min(len(names), rng.randrange(2, 6)))
    # a name cannot be a folder of another one
    names = [x for x in names if not any(y.startswith(x + "/") for y in names)]
    others = [c for c in commits if c != target] or [target]
    main = rng.choice(["main", "master", "trunk", "dev/next"])
    name = rng.choice(names or ["other%d" % len(have)])
    if not fresh:
        if want == "branch":
            R.branch(name, target)
    elif want == "head":
        R.branch(main, target)
        R.head = "refs/heads/" + main
    else:
        R.branch(main, rng.choice(others) if want != "sha" else commits[-1])
        R.head = "refs/heads/" + main
        if want == "branch":
            R.branch(name, target)
            if name == main:
                R.branch(main, target)
    if want in ("tag", "atag"):
        if name == main:
            name = "t-" + name
        R.tag(name, target, want == "atag")
    for x in names:
        if x == name or "refs/heads/" + x in R.refs or x.startswith(name + "/") or name.startswith(x + "/"):
            continue
        if not fresh and rng.random() < 0.7:
            continue
        if rng.random() < 0.5:
            R.branch(x, rng.choice(others))
        else:
            R.tag(x, rng.choice(others), rng.random() < 0.5)
    # everything that was made is reachable
    for i, c in enumerate(commits):
        R.branch("keep%d" % (i + len(have)), c)
    spec = {"head": None, "sha": target}.get(want, name)
    return R, spec


class C21(core.Prop):
    id = "C21"
    level = "exploration"
    wall = 100
    quick_s = 40
    stub = "Git server (smart HTTP protocol version 2, byte level responses, no TLS)"
    rule = ("seeded command whose registry, dependencies, baseline, templates or policies come from simulated Git repositories with several commits, branches and tags, other files and sub-folders; the result has to be the one of the "
            "files of the requested commit in a directory, under any schedule and delivery; unknown names, commits and sub-folders and failing transfers (cut, reset, stalled, refused, error statuses, damaged or incomplete packs, "
            "redirects, partitions, disk errors, kills) must fail with a diagnostic or give that result, end in bounded simulated time, leave no temporary files and touch nothing else; non-trivial when a server was contacted")
    assumptions = ["plain HTTP only: TLS is not simulated", "the repository has no branch and tag of the same name"]
    k = 4

    def case(self, rng, tier, idx):
        while True:
            files, argv, meta = workloads.fs_cmd(rng) if rng.random() < 0.4 else workloads.any_cmd(rng)
            files, argv = dict(files), list(argv)
            if any(a.endswith((".zip", ".tar.gz")) or "[" in a for a in argv) or ".weaver.toml" in files or not all(isinstance(v, str) for v in files.values()):
                continue
            cands = [d for f, d in FLAGS if remote.pick(argv, f) is not None and argv[remote.pick(argv, f)] == d and any(p.startswith(d + "/") for p in files)
                     and not any(a.startswith(d + "/") for a in argv)]
            if cands:
                break
        chosen = [c for c in cands if rng.random() < 0.6] or [rng.choice(cands)]
        deps = sorted({p.split("/")[0] for p in files if re.match(r"dep\d+/", p)})
        chosen = [d for d in deps if rng.random() < 0.3] + chosen
        plain, pargv = dict(files), list(argv)
        web, miss, wants = [], None, []
        nope = rng.random() < 0.12
        evil = None if nope or rng.random() > 0.15 else []
        shared = None       # one repository for several inputs
        urls = []
        for n, d in enumerate(chosen):
            sub = rng.choice([None, "model", "a/b"])
            want = rng.choice(["head", "head", "branch", "tag", "atag", "sha"])
            inner = {p[len(d) + 1:]: t.encode() for p, t in files.items() if p.startswith(d + "/")}
            bad = evil if n == len(chosen) - 1 else None
            if shared and want != "head" and rng.random() < 0.6:
                R, w = shared
                R, spec = repository(rng, inner, sub, want, bad, R)
            else:
                R, spec = repository(rng, inner, sub, want, bad)
                w = {"path": "/x/%s" % d + (rng.choice([".git", ".git", ""]) if spec or sub else ".git"), "repo": R}
                web.append(w)
                shared = (R, w)
            wants.append(want)
            path = w["path"]
            if nope and n == len(chosen) - 1:
                miss = rng.choice(["name", "sha", "tree"] + (["sub"] if sub else []))
                if miss == "sub":
                    sub = rng.choice(["missing", sub + "/missing", "mode", "README"])
                else:
                    spec = {"name": rng.choice(["none", "v", "mai", "eep0", "refs", "keep"]), "sha": "%040x" % rng.randrange(1, 1 << 160), "tree": R.tree({"x": b"y"})[:39] + "0"}[miss]
            url = "http://reg.test:%d%s%s%s" % (remote.PORT, path, "@" + spec if spec else "", "[%s]" % sub if sub else "")
            urls.append(url)
            for p in [p for p in files if p.startswith(d + "/")]:
                del files[p]
            argv = [url if a == d and argv[j - 1] in ("-r", "-t", "-p", "--baseline-registry") else a for j, a in enumerate(argv)]
            # dependencies are named by the manifests of what depends on them, also of folders that are in a repository themselves
            if d in deps:
                for p in list(files):
                    if p.endswith("manifest.yaml"):
                        m = json.loads(files[p])
                        for x in m.get("dependencies", []):
                            if x.get("registry_path") == d:
                                x["registry_path"] = url
                        files[p] = json.dumps(m)
        for w in web:
            R = w.pop("repo")
            kw = {"chunk": rng.choice([65000, 65000, 8000, 1000, 100]), "progress": rng.random() < 0.5, "level": rng.choice([0, 6, 9])}
            drop = rng.choice(sorted(R.objs))
            w.update(ans=[[p, b, c, remote.b64(x)] for p, b, c, x in R.answers(w["path"], **kw)], less=[remote.b64(R.fetch(x, skip=drop, **kw)) for x in (True, False)], dropped=R.objs[drop][0])
        victims = {"victim/a.txt": "precious a\n"}
        files.update(victims)
        plain.update(victims)
        home = {".weaver/vdir_cache/keep.txt": "keep\n"}
        steps = [{"argv": argv, "plan": core.calm(), "world": 1}] + [{"argv": argv, "fresh": 1, "world": 1, "pick": rng.randrange(1 << 40)} for _ in range(self.k)]
        return {"sc": {"files": files, "home": home, "steps": steps}, "plain": {"files": plain, "home": home, "steps": [{"argv": pargv, "plan": core.calm(), "world": 1}]},
                "meta": dict(meta, argv=" ".join(argv), dirs=chosen, wants=wants, miss=miss, evil=evil, git=web, urls=urls)}

    # ---- deliveries
    def rules(self, rng, web, plan, calm=False):
        rules, kinds = [], set()
        for w in web:
            for p, body, ct, data in w["ans"]:
                data = base64.b64decode(data)
                fr = "cl" if calm else rng.choice(["cl", "chunked", "chunked"])
                end = "keep" if calm else rng.choice(["keep", "keep", "close"])
                d, off = remote.response(rng, 200, data, fr, "Connection: close\r\n" if end == "close" else "", ct)
                rule = {"path": p, "body": body, "data": remote.b64(d), "end": end}
                if not calm and rng.random() < 0.15:
                    rule["delay"] = rng.choice([1000, 500000, 8000000])
                    if rng.random() < 0.7:
                        rule.update(kind="gap", cut=rng.randrange(0, len(d)))
                    kinds.add("slow")
                rules.append(("reg.test", p, rule))
        remote.install(plan, rules)
        return sorted(kinds) or ["plain"]

    def faulty(self, rng, web, plan, ref):
        self.rules(rng, web, plan, calm=rng.random() < 0.6)
        act = [a for a in plan["actors"] if a["name"] == "reg_test"][0]
        w = rng.choice(web)
        i = rng.choice([0, 1, 2, 2, 3, 3])
        p, body, ct, data = w["ans"][i]
        data = base64.b64decode(data)
        kind = rng.choice(["cut", "cut", "cut", "status", "refuse", "garbage", "flip", "flip", "flip", "less", "less", "partition", "disk", "disk", "disk", "disk", "oom", "redirect", "away", "freeze", "unfinished"])
        rule = None
        if kind == "cut":
            d, off = remote.response(rng, 200, data, rng.choice(["cl", "chunked", "eof"]), ctype=ct)
            n = rng.choice([0, rng.randrange(off), off, rng.randrange(off, len(d)), rng.randrange(off, len(d)), len(d) - 1])
            if rng.random() < 0.3:
                # a complete answer with a part of the packets
                d = remote.response(rng, 200, data[:rng.randrange(len(data))], "cl", ctype=ct)[0]
                n = len(d)
            rule = {"data": remote.b64(d), "cut": n, "end": rng.choice(["close", "reset", "stall"])}
        elif kind == "unfinished":
            d, off = remote.response(rng, 200, data, rng.choice(["chunked", "eof"]), ctype=ct)
            n = len(d) - (5 if b"chunked" in d[:off] else 0)
            rule = {"data": remote.b64(d), "cut": n, "end": rng.choice(["close", "reset", "stall"])}
        elif kind == "status":
            rule = {"data": remote.b64(remote.response(rng, rng.choice([401, 403, 404, 429, 500, 502, 503]), rng.choice([b"error", data]), "cl", ctype=rng.choice([ct, "text/html"]))[0]), "end": "keep"}
        elif kind == "garbage":
            b = rng.choice([b"", b"<html>Please sign in</html>", b"0000", b"zzzz", git.pkt("ERR access denied\n"), data + b"0000", b"0008NAK\n0000"])
            rule = {"data": remote.b64(remote.response(rng, 200, b, "cl", ctype=ct)[0]), "end": "keep"}
        elif kind == "flip":
            k = rng.randrange(len(data) // 2, len(data)) if rng.random() < 0.5 else rng.randrange(len(data))
            data = data[:k] + bytes([data[k] ^ 1 << rng.randrange(8)]) + data[k + 1:]
            rule = {"data": remote.b64(remote.response(rng, 200, data, "cl", ctype=ct)[0]), "end": "keep"}
        elif kind == "less":
            for i in (3, 2):    # the shallow one is looked at first
                p, body, ct, _ = w["ans"][i]
                act["rules"].insert(0, {"path": p, "body": body, "data": remote.b64(remote.response(rng, 200, base64.b64decode(w["less"][i - 2]), "cl", ctype=ct)[0]), "end": "keep"})
            return kind + ":" + w["dropped"]
        elif kind in ("redirect", "away"):
            host = "reg.test" if kind == "redirect" else "cdn.test"
            p, body, ct, _ = w["ans"][0]
            loc = "http://%s:%d%s" % (host, remote.PORT, p.replace("/x/", "/moved/"))
            rule = {"data": remote.b64(remote.response(rng, rng.choice([301, 302, 307]), b"", "cl", "Location: %s\r\n" % loc)[0]), "end": "keep"}
            a2 = [a for a in plan["actors"] if a["name"] == host.replace(".", "_")][0]
            for q, b, c, x in w["ans"]:
                a2["rules"].append({"path": q.replace("/x/", "/moved/"), "body": b, "data": remote.b64(remote.response(rng, 200, base64.b64decode(x), "cl", ctype=c)[0]), "end": "keep"})
        elif kind == "refuse":
            act["refuse"] = rng.choice([[0, 1 << 30], [0, 0], [1, 1], [1, 1 << 30]])
        elif kind == "partition":
            t0 = rng.choice([0, 0, rng.randrange(1, 8000)])
            plan["partitions"] = [["reg_test", t0, t0 + rng.choice([1, 15, 40, 100, 700]) * 1000000]]
        elif kind == "freeze":
            plan["freeze"] = [core.stall(rng)]
        elif kind == "disk":
            ops = [x for x in fs_ops(ref, ("open", "create", "write", "mkdir", "read", "close", "rename", "unlink")) if "vdir_cache" in x[1]]
            if ops:
                c, path, n = rng.choice(ops)
                e = rng.choice({"open": [errno.EACCES, errno.EMFILE, errno.EIO], "create": [errno.ENOSPC, errno.EACCES, errno.EMFILE], "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, "short"],
                                "mkdir": [errno.ENOSPC, errno.EACCES], "close": ["crash"], "unlink": ["crash"], "rename": [errno.EIO, errno.ENOSPC, "crash"], "read": [errno.EIO, "short"]}[c])
                n = sum(1 for c2, p2, _ in ops[:ops.index((c, path, n)) + 1] if c2 == c)
                if rng.random() < 0.15:
                    e = rng.choice(["crash", "crash_after"])
                plan["faults"] = [[c, "vdir_cache", n, n if rng.random() < 0.6 or isinstance(e, str) else -1, e, rng.choice([0, 1, 100])]]
                return "disk:%s:%s" % (c, e)
        elif kind == "oom":
            plan["faults"] = [[rng.choice(["connect", "recv", "send"]), "-", rng.choice([1, 1, 2, 3, 5]), rng.choice([-1, 0]) or -1,
                               rng.choice([errno.ENETUNREACH, errno.ECONNRESET, errno.ENOBUFS, errno.ETIMEDOUT]), 0]]
        if rule is not None:
            rule.update(path=p, body=body)
            if rng.random() < 0.2:
                rule["ord"] = rng.choice([0, 1, 2, 3])
            act["rules"].insert(0, rule)
        return kind

    def prepare(self, slot, case):
        m, sc = case["meta"], case["sc"]
        st0 = sc["steps"][0]
        if "actors" not in st0["plan"]:
            self.rules(random.Random(1), m["git"], st0["plan"], True)
            st0["plan"]["maxtime_us"] = 6 * 3600 * 10**6
        ref = None
        for st in sc["steps"][1:]:
            if "pick" not in st:
                continue
            if ref is None:
                ref = self.ref(slot, "ref", {"files": sc["files"], "home": sc["home"], "steps": [st0]})[0]
            rng = random.Random(st.pop("pick"))
            p = core.sched(rng, net=True) if rng.random() < 0.7 else core.calm(seed=rng.randrange(1, 1 << 40))
            p.pop("jumps", None)
            p.pop("eintr", None)
            p["hashseed"] = 1
            p["maxtime_us"] = 6 * 3600 * 10**6
            st["plan"] = p
            st["kind"] = "benign:" + "+".join(self.rules(rng, m["git"], p)) if rng.random() < 0.35 else self.faulty(rng, m["git"], p, ref)

    def view(self, r, m):
        d = (r.root, m["dirs"], m["urls"])
        fs = {k: v.decode("utf8", "replace") for k, v in r.norm_files().items() if not re.match(r"(reg|base|templates|pol|dep\d+)/", k)}
        return {"exit code": r.rc, "stdout": flat(r.text("out"), *d), "files": {k: flat(v, *d) for k, v in fs.items()}, "diagnostics": flat(norm_err(r.text("err")), *d)}

    def run(self, slot, case):
        out = core.Outcome()
        m = case["meta"]
        self.prepare(slot, case)
        plain = self.ref(slot, "plain", case["plain"])[0]
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        want = self.view(plain, m)
        new_ok = {p for p in plain.after if p not in plain.before} | {"h/.weaver", "h/.weaver/vdir_cache"}
        mod_ok = {p for p in plain.after if p in plain.before and plain.after[p] != plain.before[p]}
        out.cover = ["%s/exit%s" % (m["cmd"], rs[0].rc)] + ["from:" + d for d in m["dirs"]] + ["want:" + x for x in m["wants"]] + ["missing " + str(m["miss"])]
        out.nontrivial = any(l.startswith("H1SRV") for r in rs for l in r.log)
        for st, r in zip(case["sc"]["steps"], rs):
            kind = st.get("kind", "benign:calm")
            esc = [l for l in r.log if l.startswith("ESCAPE")]
            if esc:
                out.fail("outside", "%s: the command tried to change something outside: %s" % (kind, esc[:3]))
                return out
            for p in sorted(set(r.before) | set(r.after)):
                a, b = r.before.get(p), r.after.get(p)
                if a == b or (a is None and p in new_ok) or p in mod_ok:
                    continue
                if p.startswith("h/.weaver/vdir_cache/repo"):
                    continue    # the temporary folder: see below
                out.fail("outside", "%s: %s was %s by a command that uses a repository: %s -> %s" % (kind, p, "created" if a is None else "removed" if b is None else "changed", a, b))
                return out
            if r.special in ("DEADLOCK", "TIMELIMIT", "STEPLIMIT", "WALLTIMEOUT"):
                out.fail("hang-unfinished" if self.unfinished(st, r) else "hang", "%s: the command never ends (%s): %s" % (kind, r.special, self.how(st, r)))
                return out
            if any(l.startswith("CRASH") for l in r.log):
                continue
            if r.special or r.rc not in (0, 1):
                out.fail("crash", "%s: the command crashed (%s %s): %s" % (kind, r.special, r.rc, r.text("err")[-900:]))
                return out
            tries = sum(1 for l in r.log if l.startswith(("H1SRV", "N connect"))) + 1
            if int(r.end.get("now", 0)) > tries * SLOW_S * 10**9:
                out.fail("slow", "%s: the command took %d simulated seconds for %d requests: %s" % (kind, int(r.end["now"]) // 10**9, tries, self.how(st, r)))
                return out
            left = [x for x in r.tmp if x != "vdir_cache/keep.txt"]
            if left and not any(f[0] in ("opendir", "readdir", "open", "unlink") for f in st["plan"].get("faults", [])):
                out.fail("leftover", "%s: temporary files were left behind: %s" % (kind, left[:5]))
                return out
            if r.rc != 0 and not (r.text("err").strip() or r.text("out").strip()):
                out.fail("mute", "%s: the command failed without a message" % kind)
                return out
            if m["miss"]:
                out.cover.append("missing exit%s" % r.rc)
                if r.rc == 0:
                    out.fail("missing", "the command succeeded although the repository has no such %s: %s" % (m["miss"], m["argv"]))
                    return out
                continue
            if m["evil"]:
                out.cover.append("evil %s exit%s" % (m["evil"][0], r.rc))
                continue
            got = self.view(r, m)
            out.cover.append(kind.split(":")[0] + ":" + ("same" if got == want else "exit%s" % r.rc))
            if got == want or (not kind.startswith("benign") and r.rc != 0):
                continue
            k = [x for x in want if got[x] != want[x]]
            if not kind.startswith("benign") and k == ["diagnostics"]:
                continue
            k = k[0]
            out.fail("differs", "%s: the %s is not the one of the same files in a directory: %s vs %s" % (kind, k, str(want[k] if k == "exit code" else Counter(str(want[k])) - Counter(str(got[k]))), str(got[k] if k == "exit code" else Counter(str(got[k])) - Counter(str(want[k])))) + "; plain: %s; repository: %s; %s" % (plain.text("err")[-500:], r.text("err")[-500:], self.how(st, r)))
            return out
        return out

    def unfinished(self, st, r):
        """Did all packets of an answer arrive, but not the end of its HTTP body? (a known finding)"""
        last = [l for l in r.log if l.startswith("H1SRV")]
        if not last or r.special not in ("DEADLOCK", "TIMELIMIT"):
            return False
        act = [a for a in st["plan"]["actors"] if a["name"] == re.search(r"actor=(\w+)", last[-1])[1]][0]
        n = int(re.search(r"rule=(-?\d+)", last[-1])[1])
        rule = act["rules"][n] if n >= 0 else {}
        data = base64.b64decode(rule.get("data", ""))
        head = data[:data.index(b"\r\n\r\n") + 4] if data else b""
        if rule.get("body") == "command=fetch" or b"Content-Length" in head:
            return False
        if rule.get("kind") == "gap" or rule.get("cut", -1) < 0:
            return bool(st["plan"].get("partitions")) or any(f[0] == "recv" for f in st["plan"].get("faults", []))
        body, k = data[len(head):rule["cut"]], 0
        if b"chunked" not in head:
            return body.endswith(b"0000")
        out = b""
        while b"\r\n" in body[k:]:
            i = body.index(b"\r\n", k)
            size = int(body[k:i], 16)
            out += body[i + 2:i + 2 + size]
            k = i + 4 + size
        return out.endswith(b"0000")

    def how(self, st, r):
        return "; ".join([l for l in r.log if l.startswith(("H1SRV", "N connect"))][:8]) + " " + str(st["plan"].get("partitions", "")) + str(st["plan"].get("faults", ""))

    def shrink(self, case):
        st = case["sc"]["steps"]
        if len(st) > 2:
            for i in range(1, len(st)):
                c = sim.clone(case)
                c["sc"]["steps"] = [st[0], sim.clone(st[i])]
                yield c

    def describe(self, case):
        return {"argv": case["meta"]["argv"], "wants": case["meta"]["wants"], "kinds": [s.get("kind") for s in case["sc"]["steps"][1:]]}


PROP = C21
