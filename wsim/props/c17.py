"""C17: unpacking a registry archive gives the archive's files, and touches nothing but its own temporary folder."""
import base64
import errno
import gzip
import io
import re
import tarfile
import warnings
import zipfile

from .. import core, remote, sim, workloads
from .c01 import norm_err
from .fsbase import fs_ops

UP = "../../../../"     # from the folder an archive is unpacked in to the scratch root of the run


class Entry:
    def __init__(self, name, body=b"", typ="file", link="", mode=0o644):
        self.name, self.body, self.typ, self.link, self.mode = name, body, typ, link, mode


TYPES = {"file": tarfile.REGTYPE, "dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE, "fifo": tarfile.FIFOTYPE, "chr": tarfile.CHRTYPE, "cont": tarfile.CONTTYPE}


def build(rng, kind, entries, damage=None):
    buf = io.BytesIO()
    if kind == "zip":
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            for e in entries:
                zi = zipfile.ZipInfo(e.name + ("/" if e.typ == "dir" and not e.name.endswith("/") else ""), (2020, 1, 1, 0, 0, 0))
                zi.create_system = 3
                zi.external_attr = ({"sym": 0o120777, "dir": 0o40755}.get(e.typ, 0o100000 | e.mode)) << 16
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    z.writestr(zi, e.link.encode() if e.typ == "sym" else e.body, rng.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED]))
    else:
        raw = io.BytesIO()
        fmt = rng.choice([tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT, tarfile.PAX_FORMAT])
        if any(len(e.name) > 90 for e in entries) and fmt == tarfile.USTAR_FORMAT:
            fmt = tarfile.GNU_FORMAT
        with tarfile.open(fileobj=raw, mode="w", format=fmt) as t:
            for e in entries:
                ti = tarfile.TarInfo(e.name)
                ti.type = TYPES[e.typ]
                ti.linkname = e.link
                ti.mode = e.mode if e.typ != "dir" else 0o755
                ti.mtime = 1577836800
                if e.typ in ("file", "cont"):
                    ti.size = len(e.body)
                    t.addfile(ti, io.BytesIO(e.body))
                else:
                    t.addfile(ti)
        raw = raw.getvalue()
        heads = [i for i in range(0, len(raw), 512) if raw[i + 257:i + 262] == b"ustar"]
        if damage == "header":
            i = rng.choice(heads) + 148
            raw = raw[:i] + b"7777777\0" + raw[i + 8:]
        elif damage == "cut-tar":
            raw = raw[:rng.randrange(heads[-1] // 512 + 1) * 512 + rng.randrange(1, 512)]
        # a gzip file may consist of several members
        cuts = sorted(rng.choice([rng.randrange(len(raw)), rng.randrange(len(raw) // 512) * 512]) for _ in range(rng.choice([0, 0, 0, 1, 3])))
        if damage:
            cuts = []
        for a, b in zip([0] + cuts, cuts + [len(raw)]):
            buf.write(gzip.compress(raw[a:b], rng.choice([0, 6]), mtime=0))
    data = buf.getvalue()
    if damage == "cut":
        data = data[:rng.randrange(len(data) - 8)]
    elif damage == "flip":
        # a bit in the part that holds the contents
        i = rng.randrange(30, max(31, data.index(b"PK\1\2")))
        data = data[:i] + bytes([data[i] ^ 1 << rng.randrange(8)]) + data[i + 1:]
    return data


def benign(rng, files, prefix, kind, sub):
    """Entries whose unpacking gives the files under prefix/."""
    base = "top/" + (sub + "/" if sub else "")
    es = []
    for p, t in sorted(files.items()):
        if p.startswith(prefix + "/"):
            e = Entry(base + p[len(prefix) + 1:], t.encode(), mode=rng.choice([0o644, 0o600, 0o755, 0o444]))
            if rng.random() < 0.06:
                es.append(Entry(e.name, rng.choice([b"", b"groups: [", e.body * 2])))   # a later entry of the same name wins
            es.append(e)
    order = list(range(len(es)))
    if rng.random() < 0.5:
        # any order that keeps duplicates in order
        rng.shuffle(order)
        pos = {}
        for i in sorted(range(len(es))):
            pos.setdefault(es[i].name, []).append(i)
        at = {n: sorted(order.index(i) for i in v) for n, v in pos.items()}
        new = [None] * len(es)
        for n, v in pos.items():
            for i, k in zip(v, at[n]):
                new[k] = es[i]
        es = new
    if rng.random() < 0.5:
        dirs = sorted({"/".join(e.name.split("/")[:i]) for e in es for i in range(1, e.name.count("/") + 1)})
        es = [Entry(d, typ="dir") for d in dirs] + es if rng.random() < 0.7 else es + [Entry(d, typ="dir") for d in dirs]
    extra = []
    if sub:
        extra += [Entry("top/README.md", b"readme\n"), Entry("top/" + sub.split("/")[0] + "x/bad.yaml", b"groups: [{}]\n"), Entry("top/other/" + sub + "/bad.yaml", b"groups: 5\n")]
        if "/" in sub:
            extra.append(Entry("top/" + sub.split("/")[0] + "/bad.yaml", b"groups: 5\n"))
        if rng.random() < 0.3:
            extra += [Entry("README", b"x"), Entry("other-top/README", b"y")]
    else:
        extra += [Entry("top/notes/" + "long" * 30 + ".md", b"note\n"), Entry("top/empty.bin", b"")]
    for e in extra:
        if rng.random() < 0.6:
            es.insert(rng.randrange(len(es) + 1), e)
    return es


def hostile(rng, sub):
    """Entries that try to leave the folder they are unpacked in."""
    t = "top/" + (sub + "/" if sub else "")
    v = rng.choice(["r/victim/a.txt", "h/victim.txt", "r/victim/new.txt", "r/reg.yaml", "h/.weaver/vdir_cache/keep.txt", "h/.weaver/new.txt"])
    d = v.rsplit("/", 1)[0]
    evil = b"evil " + v.encode() + b"\n"
    k = rng.choice(["dots", "dots", "dots-in", "dots-in", "dots-top", "absolute", "link-dir", "link-dir", "link-dir", "link-file", "link-chain", "link-chain2", "hard", "hard-write", "hard-dir", "dir-over-link", "dir-dots", "chmod",
                    "fifo", "link-abs", "late-dir", "link-up"])
    if k == "dots":
        return k, [Entry(t + UP + v, evil)]
    if k == "dots-in":
        # stays inside the archive as a whole, but not inside the part that is unpacked
        x = rng.choice(["x/", "x/y/", ""])
        n = x.count("/") + rng.randrange(1, t.count("/") + 1)
        e = t + x + "../" * n
        return k, rng.choice([[Entry(e + "dotsdir", typ="dir")], [Entry(e + "dots.yaml", evil)], [Entry(e + "dotsdir/dots.yaml", evil)], [Entry(t + "x", typ="dir"), Entry(e + "keep.txt", evil)]])
    if k == "dots-top":
        return k, [Entry(rng.choice(["../" + UP + v, "./" + UP + v, "top/x/../" + UP + v, "top/./" + UP + v, t + "x/../" + UP + v, "../../../r/victim/a.txt"]), evil)]
    if k == "absolute":
        return k, [Entry(rng.choice(["/wsim-escape/x.txt", "//wsim-escape/x.txt", "top//wsim-escape/x.txt", t + "/wsim-escape/y.txt"]), evil)]
    if k == "link-dir":
        es = [Entry(t + "lnk", typ="sym", link=UP + d), Entry(t + "lnk/" + v.rsplit("/", 1)[1], evil)]
        if rng.random() < 0.3:
            es.append(Entry(t + "lnk/sub/deep.txt", evil))
        return k, es
    if k == "link-up":
        up = rng.choice(["..", ".", "../..", "../../.."])
        return k, [Entry(t + "lnk", typ="sym", link=up), Entry(t + "lnk/new.txt", evil)]
    if k == "link-abs":
        return k, [Entry(t + "lnk", typ="sym", link="/wsim-escape"), Entry(t + "lnk/x.txt", evil)]
    if k == "link-file":
        return k, [Entry(t + "f.txt", typ="sym", link=UP + v), Entry(t + "f.txt", evil, mode=0o777)]
    if k == "link-chain":
        return k, [Entry(t + "a/b", typ="sym", link=".."), Entry(t + "c", typ="sym", link="a/b/" + UP + d), Entry(t + "c/" + v.rsplit("/", 1)[1], evil)]
    if k == "link-chain2":
        return k, [Entry(t + "l1", typ="sym", link=".."), Entry(t + "l1/l2", typ="sym", link=".."), Entry(t + "l1/l2/" + "x.txt", evil)]
    if k == "hard":
        return k, [Entry(t + "h.txt", typ="hard", link=rng.choice([UP + v, t + UP + v, "/" + v, "../../../r/victim/a.txt"]))]
    if k == "hard-write":
        ln = rng.choice([UP + v, "top/s"])
        return k, [Entry(t + "s", typ="sym", link=UP + v), Entry(t + "h.txt", typ="hard", link=ln), Entry(t + "h.txt", evil, mode=0o777)]
    if k == "hard-dir":
        return k, [Entry(t + "h", typ="hard", link=UP + d), Entry(t + "h/" + v.rsplit("/", 1)[1], evil)]
    if k == "dir-over-link":
        return k, [Entry(t + "lnk", typ="sym", link=UP + d), Entry(t + "lnk", typ="dir"), Entry(t + "lnk/" + v.rsplit("/", 1)[1], evil)]
    if k == "dir-dots":
        return k, [Entry(rng.choice([t + UP + "r/newdir", "top/../" + UP + "h/newdir", t + "x/../../../newdir"]), typ="dir")]
    if k == "chmod":
        return k, [Entry(t + "s", typ="sym", link=UP + d), Entry(t + "s/.", typ="dir", mode=0o700), Entry(t + "s/" + v.rsplit("/", 1)[1], typ="dir")]
    if k == "late-dir":
        return k, [Entry(t + "d/e", typ="dir"), Entry(t + "d", typ="sym", link=UP + d), Entry(t + "d/e/x.txt", evil), Entry(t + "d/" + v.rsplit("/", 1)[1], evil)]
    return k, [Entry(t + "p.yaml", typ=rng.choice(["fifo", "chr", "cont"]))]


def norm(t, dirs):
    """Without the names of the places the inputs come from."""
    t = t.replace("<ROOT>/h/.weaver/vdir_cache/repo<TMP>", "")
    for d in dirs:
        t = re.sub(r"(http://[\w.:]*/x/)?%s(\.zip|\.tar\.gz)?(\[[\w/]*\])?" % d, "", t)
    return t


def flat(t, dirs):
    """The text up to order: the path of a registry decides where diagnostics are wrapped and the order of equally named attributes."""
    t = re.sub(r"\x1b\[[0-9;]*m|\\u001b\[[0-9;]*m", "", t)
    t = re.sub(r"\\n|\n", " ", t)
    t = re.sub(r"\s|[│|]", "", t)
    return "".join(sorted(re.sub(r"\d", "", norm(t, dirs))))


def first(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, n - 200):n + 400], b[max(0, n - 200):n + 400]


class C17(core.Prop):
    id = "C17"
    level = "exploration"
    quick_s = 35
    k = 3
    stub = "HTTP server for the remote cases (byte level responses)"
    rule = ("seeded command whose registry, baseline, templates or policies come from a local or remote .zip/.tar.gz made of ordinary entries (any order, duplicates, directories, long names, extra files, sub-folders) and, in half of the "
            "cases, entries that try to leave the temporary folder (.., absolute names, symbolic and hard links, chains of links, directories over links, device nodes); ordinary archives must give the result "
            "of the same files in a directory, and whatever happens (also with disk errors, kills and schedules) no file outside the temporary folder is created, changed or removed and the temporary folder is gone; "
            "non-trivial when an archive was opened")
    assumptions = ["reading through a symbolic link of an archive is not prevented", "changes outside the scratch folder are refused and recorded by the simulator"]

    def case(self, rng, tier, idx):
        while True:
            files, argv, meta = workloads.fs_cmd(rng) if rng.random() < 0.5 else workloads.any_cmd(rng)
            files, argv = dict(files), list(argv)
            if any(a.endswith((".zip", ".tar.gz")) or "[" in a for a in argv) or ".weaver.toml" in files:
                continue
            cands = []
            for flag, d in (("-r", "reg"), ("-t", "templates"), ("-p", "pol"), ("--baseline-registry", "base")):
                i = remote.pick(argv, flag)
                if i is not None and argv[i] == d and any(p.startswith(d + "/") for p in files) and not any(a.startswith(d + "/") for a in argv):
                    cands.append(d)
            if cands and all(isinstance(v, str) for v in files.values()):
                break
        chosen = [c for c in cands if rng.random() < 0.6] or [rng.choice(cands)]
        plain = dict(files)
        bad, damaged = [], []
        web = remote.Web()
        pargv = list(argv)
        for d in chosen:
            kind = rng.choice(["zip", "tar.gz", "tar.gz"])
            sub = rng.choice([None, None, "model", "a/b"])
            es = benign(rng, files, d, kind, sub)
            far = rng.random() < 0.3
            if far and rng.random() < 0.3:
                # a file of the archive's own name
                es.insert(rng.randrange(len(es) + 1), Entry("top/" + (sub + "/" if sub else "") + d + "." + kind, rng.choice([b"", b"not a registry file\n" * 5000])))
            if rng.random() < 0.5:
                k, hs = hostile(rng, sub)
                bad.append(kind + ":" + k)
                i = rng.randrange(len(es) + 1)
                for h in hs:
                    es.insert(i, h)
                    i = rng.randrange(i + 1, len(es) + 1) if rng.random() < 0.3 else i + 1
            hurt = rng.choice(["cut", "flip"] if kind == "zip" else ["cut", "cut-tar", "header", "header"]) if rng.random() < 0.15 else None
            if hurt:
                damaged.append(kind + ":" + hurt)
            data = build(rng, kind, es, hurt)
            for p in [p for p in files if p.startswith(d + "/")]:
                del files[p]
            if far:
                name = web.put("/x/%s.%s" % (d, kind), data)
            else:
                name = d + "." + kind
                files[name] = {"b64": base64.b64encode(data).decode()}
            subarg = rng.choice(["[%s]", "[%s]", "[%s/]"]) % sub if sub else ""
            argv = [name + subarg if a == d and argv[j - 1] in ("-r", "-t", "-p", "--baseline-registry") else a for j, a in enumerate(argv)]
        victims = {"victim/a.txt": "precious a\n", "victim/b/c.txt": "precious c\n", "reg.yaml": "precious\n"}
        files.update(victims)
        plain.update(victims)
        home = {"victim.txt": "precious home\n", ".weaver/vdir_cache/keep.txt": "keep\n"}
        st = {"argv": argv, "plan": core.calm(), "world": 1}
        steps = [st] + [{"argv": argv, "fresh": 1, "world": 1, "pick": rng.randrange(1 << 40)} for _ in range(self.k - 1)]
        sc = {"files": files, "home": home, "steps": steps}
        return {"sc": sc, "plain": {"files": plain, "home": home, "steps": [{"argv": pargv, "plan": core.calm(), "world": 1}]},
                "meta": dict(meta, argv=" ".join(argv), dirs=chosen, bad=bad, damaged=damaged, web=web.json())}

    def prepare(self, slot, case):
        import random
        sc = case["sc"]
        web = remote.Web.of(case["meta"]["web"])
        st0 = sc["steps"][0]
        if "actors" not in st0["plan"] and web.docs:
            st0["plan"] = remote.calm_plan(web)
        ref = None
        for st in sc["steps"][1:]:
            if "pick" not in st:
                continue
            if ref is None:
                ref = self.ref(slot, "ref", {"files": sc["files"], "home": sc["home"], "steps": [st0]})[0]
            rng = random.Random(st.pop("pick"))
            p = core.sched(rng, net=bool(web.docs)) if rng.random() < 0.6 else core.calm(seed=rng.randrange(1, 1 << 40))
            p.pop("jumps", None)
            p.pop("eintr", None)
            p["hashseed"] = 1
            if web.docs:
                remote.install(p, [(h, q, remote.plain(rng, b)) for (h, q), b in sorted(web.docs.items())])
            st["plan"] = p
            if rng.random() < 0.6:
                ops = [x for x in fs_ops(ref, ("open", "create", "write", "mkdir", "read", "unlink", "close")) if "vdir_cache" in x[1] or x[1].endswith((".zip", ".gz"))]
                if ops:
                    c, path, n = rng.choice(ops)
                    e = rng.choice({"open": [errno.EACCES, errno.EMFILE, errno.EIO], "create": [errno.ENOSPC, errno.EACCES, errno.EMFILE], "write": [errno.ENOSPC, errno.EIO, "short"],
                                    "mkdir": [errno.ENOSPC, errno.EACCES], "close": ["crash"], "unlink": ["crash"], "read": [errno.EIO, "short"]}[c])
                    m = "vdir_cache" if "vdir_cache" in path else path
                    n = sum(1 for c2, p2, _ in ops[:ops.index((c, path, n)) + 1] if c2 == c and m in p2)
                    if rng.random() < 0.2:
                        e = rng.choice(["crash", "crash_after"])
                    p["faults"] = [[c, m, n, n if rng.random() < 0.6 or isinstance(e, str) else -1, e, rng.choice([0, 1, 100])]]
                    if c == "read" and e == errno.EIO and "vdir_cache" not in path and rng.random() < 0.7:
                        # only a part of the archive can be read
                        p["faults"] = [["read", path, 1, 1, "short", rng.choice([100, 700, 2000, 5000])], ["read", path, 2, -1, e, 0]]
                    st["kind"] = "%s:%s" % (c, e)

    def view(self, r, dirs):
        fs = {k: v.decode("utf8", "replace") for k, v in r.norm_files().items() if not any(k.startswith(d + "/") or k in (d + ".zip", d + ".tar.gz") for d in dirs)}
        return {"exit code": r.rc, "stdout": flat(r.text("out"), dirs), "files": {k: flat(v, dirs) for k, v in fs.items()}, "diagnostics": flat(norm_err(r.text("err")), dirs)}

    def run(self, slot, case):
        out = core.Outcome()
        m = case["meta"]
        self.prepare(slot, case)
        plain = self.ref(slot, "plain", case["plain"])[0]
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        want = self.view(plain, m["dirs"])
        new_ok = {p for p in plain.after if p not in plain.before} | {"h/.weaver", "h/.weaver/vdir_cache"}
        mod_ok = {p for p in plain.after if p in plain.before and plain.after[p] != plain.before[p]}
        out.cover = ["%s/exit%s" % (m["cmd"], rs[0].rc)] + ["from:" + d for d in m["dirs"]] + (m["bad"] or ["ordinary"])
        out.nontrivial = any("vdir_cache" in l for r in rs for l in r.log if l.startswith("F "))
        for st, r in zip(case["sc"]["steps"], rs):
            kind = st.get("kind", "no fault")
            esc = [l for l in r.log if l.startswith("ESCAPE")]
            if esc:
                out.fail("outside", "%s: the command tried to change something outside: %s" % (m["bad"], esc[:3]))
                return out
            for p in sorted(set(r.before) | set(r.after)):
                a, b = r.before.get(p), r.after.get(p)
                if a == b or (a is None and p in new_ok) or p in mod_ok:
                    continue
                out.fail("outside", "%s: %s was %s by unpacking an archive: %s -> %s" % (m["bad"], p, "created" if a is None else "removed" if b is None else "changed", a, b))
                return out
            if any(l.startswith("CRASH") for l in r.log):
                continue
            if r.special or r.rc not in (0, 1):
                out.fail("crash", "%s %s: the command crashed (%s %s): %s" % (m["bad"], kind, r.special, r.rc, r.text("err")[-600:]))
                return out
            faulty = bool(st["plan"].get("faults"))
            left = [x for x in r.tmp if x != "vdir_cache/keep.txt"]
            if left and not any(f[0] in ("opendir", "readdir", "open", "unlink") for f in st["plan"].get("faults", [])):
                out.fail("leftover", "%s %s: temporary files were left behind: %s" % (m["bad"], kind, left[:5]))
                return out
            if r.rc != 0 and not (r.text("err").strip() or r.text("out").strip()):
                out.fail("mute", "%s: the command failed without a message" % kind)
                return out
            if m["bad"]:
                out.cover.append("bad exit%s" % r.rc)
                continue
            got = self.view(r, m["dirs"])
            if m["damaged"]:
                out.cover.append("%s exit%s" % (m["damaged"][0], r.rc))
            if got == want or ((faulty or m["damaged"]) and r.rc != 0):
                continue
            k = [x for x in want if got[x] != want[x]]
            if (faulty or m["damaged"]) and k == ["diagnostics"]:
                continue
            k = k[0]
            out.fail("differs", "%s%s: the %s is not the one of the same files in a directory: %s vs %s" % ((kind, " ".join([""] + m["damaged"]), k) + first(str(want[k]), str(got[k]))) + "; plain: %s; archive: %s" % (plain.text("err")[-300:], r.text("err")[-300:]))
            return out
        return out

    def shrink(self, case):
        st = case["sc"]["steps"]
        if len(st) > 1:
            for i in range(len(st)):
                c = sim.clone(case)
                c["sc"]["steps"] = [sim.clone(st[i])]
                yield c

    def describe(self, case):
        return {"argv": case["meta"]["argv"], "hostile": case["meta"]["bad"], "kinds": [s.get("kind") for s in case["sc"]["steps"]]}


PROP = C17
