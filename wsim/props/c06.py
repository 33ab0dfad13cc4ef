"""C06: update-markdown only ever rewrites the sections it owns."""
import re

from .. import core, workloads
from .fsbase import FsProp, fault_text

CLS = ("open", "create", "read", "write", "mkdir", "rename", "unlink", "opendir")
HEAD = re.compile(r"^\s*<!--\s*(semconv|weaver)\s.*-->\s*$")


def outside(text):
    """The lines weaver does not own, with a mark for every section it owns; None when a section is not terminated."""
    out, kind = [], None
    t = text.replace("\r\n", "\n")
    if t.endswith("\n"):
        t = t[:-1]
    for l in t.split("\n"):
        if kind is None:
            out.append(l)
            m = HEAD.match(l)
            if m:
                kind = m.group(1)
                out.append("<section>")
        elif re.match(r"^\s*<!--\s*end%s\s*-->\s*$" % kind, l):
            out.append(l)
            kind = None
    return out if kind is None else None


class C06(FsProp):
    id = "C06"
    classes = CLS
    rule = ("seeded v1/v2 registry and markdown tree (prose, managed sections, out of date, up to date or nearly so, CRLF, unterminated or unknown sections, non-markdown files); a history of "
            "1-4 update or dry runs, some killed or with read/write faults, ended by a calm run, an update and its dry run; after every run each file is compared with a model that "
            "knows which lines are hand-written; non-trivial when a fault or kill fired")
    assumptions = ["process kill, not power loss"]
    level = "fault_enumeration"

    def make(self, rng):
        return workloads.md_workload(rng, bad=0.12)

    def case(self, rng, tier, idx):
        files, argv, meta = self.make(rng)
        if rng.random() < 0.35 and not meta["broken"]:
            meta["current"] = rng.choice(["all", "all", "edit", "eol", "blank", "crlf"])
            meta["which"] = rng.randrange(1 << 20)
        steps = [{"argv": argv, "plan": core.calm()}]
        for h in range(2):
            for j in range(rng.randrange(1, 4)):
                p = core.sched(rng) if rng.random() < 0.4 else core.calm(seed=rng.randrange(1, 1 << 40))
                s = {"argv": argv, "plan": p, "pick": rng.randrange(1 << 40)}
                if not j:
                    s["fresh"] = 1
                steps.append(s)
            steps.append({"argv": argv, "plan": core.calm(), "final": 1})
        wet = [a for a in argv if a != "--dry-run"]
        steps.append({"argv": wet, "plan": core.calm(), "fresh": 1, "mode": "update"})
        steps.append({"argv": wet + ["--dry-run"], "plan": core.calm(), "mode": "verify"})
        return {"sc": {"files": files, "steps": steps}, "meta": meta}

    def resolve(self, slot, case):
        """Documentation that is already up to date, but for at most one small difference."""
        m, files = case["meta"], case["sc"]["files"]
        cur = m.pop("current", None)
        if cur:
            wet = [a for a in case["sc"]["steps"][0]["argv"] if a != "--dry-run"]
            r = self.ref(slot, "current", {"files": files, "steps": [{"argv": wet, "plan": core.calm()}]})[0]
            mds = sorted(p for p in files if p.startswith("docs/") and p.endswith(".md"))
            if r.rc == 0 and mds:
                for p in mds:
                    files[p] = r.files[p].decode()
                p = mds[m["which"] % len(mds)]
                t = files[p]
                ls = t.split("\n")
                if cur == "edit":
                    i = next((i for i, l in enumerate(ls) if HEAD.match(l)), None)
                    if i is not None:
                        ls[i + 1] = ls[i + 1][:-1] + "#" if not ls[i + 1].lstrip().startswith("<!--") else "one more line\n" + ls[i + 1]
                        files[p] = "\n".join(ls)
                elif cur == "eol":
                    files[p] = t.rstrip("\n")
                elif cur == "blank":
                    files[p] = t + "\n"
                elif cur == "crlf":
                    files[p] = t.replace("\n", "\r\n")
                m["extra"] = m.get("extra", []) + ["current docs: " + cur]
        return super().resolve(slot, case)

    def pick(self, rng, ops, ref):
        docs = [o for o in ops if "/docs" in o[1]]
        cand = docs if docs and rng.random() < 0.85 else [o for o in ops if not o[1].startswith("<")]
        if not cand:
            return []
        c = rng.choice(sorted({o[0] for o in cand}))
        path = rng.choice(sorted({o[1] for o in cand if o[0] == c}))
        k = rng.choice([o[2] for o in cand if o[:2] == (c, path)])
        if rng.random() < 0.5:
            act = rng.choice(["crash", "crash_after", "crash_mid"] if c == "write" else ["crash", "crash_after"])
            return [[c, path, k, k, act, rng.choice([0, 1, 40, 4000]) if act == "crash_mid" else 0]]
        if c == "write" and rng.random() < 0.3:
            return [[c, path, k, -1, "short", rng.choice([1, 100])], [c, path, k + 1, k + 1, "28", 0]]
        err = {"write": [28, 5], "create": [28, 13, 30], "rename": [28, 5, 13], "unlink": [5, 13]}.get(c, [5, 24])
        return [[c, path, k, rng.choice([k, -1]), str(rng.choice(err)), 0]]

    def judge(self, out, case, rs):
        m = case["meta"]
        files = case["sc"]["files"]
        want = rs[0].files
        fired = 0
        hist = []
        for i, (st, r) in enumerate(zip(case["sc"]["steps"], rs)):
            if st.get("mode"):
                continue
            if st.get("fresh") or i == 0:
                hist = []
            hist.append(fault_text(st) or "calm")
            if any(r.flt.values()):
                fired += 1
            what = "weaver %s, runs: %s" % (m["argv"], " | ".join(hist))
            if r.special:
                out.fail("hang", "%s: %s" % (what, r.special))
                return
            calm_run = i == 0 or st.get("final")
            for p, t in files.items():
                if not p.startswith("docs/"):
                    continue
                got = r.files.get(p)
                if got is None:
                    out.fail("lost", "%s: %s is gone" % (what, p))
                    continue
                if not p.endswith(".md") or m["dry"]:
                    if got != t.encode():
                        out.fail("foreign" if not m["dry"] else "dry", "%s: %s was modified" % (what, p))
                    continue
                if got == t.encode():
                    continue
                if p in m["broken"]:
                    out.fail("broken", "%s: %s (%s section) was modified" % (what, p, m["broken"][p]))
                    continue
                a, b = outside(t), outside(got.decode("utf8", "replace"))
                if a != b:
                    d = next((j for j in range(min(len(a), len(b or []))) if a[j] != b[j]), -1)
                    out.fail("prose", "%s: hand-written text of %s changed: %d lines outside managed sections before, %s after; first difference at %s: %r / %r"
                             % (what, p, len(a), len(b) if b is not None else "unterminated", d, a[d:d + 2], (b or [])[d:d + 2]))
                elif calm_run is False and got != want.get(p) and b"<section" not in got:
                    # neither the old nor the new version
                    out.fail("torn", "%s: %s is neither the old nor the updated version (%d bytes, old %d, new %d)" % (what, p, len(got), len(t.encode()), len(want.get(p, b""))))
            if r.rc != 137:
                extra = sorted(set(r.files) - set(files))
                prev = hist[:-1]
                if extra and not any("crash" in h for h in prev) and not any("unlink" in h for h in hist):
                    out.fail("litter", "%s: exit %s leaves %s behind" % (what, r.rc, extra[:4]))
            if r.rc == 0 and m["broken"] and not m["dry"]:
                out.fail("accepted", "%s: exit 0 although %s cannot be processed" % (what, m["broken"]))
            if calm_run and i:
                if r.rc != rs[0].rc or any(r.files.get(p) != want.get(p) for p in files):
                    out.fail("converge", "%s: the last, undisturbed run exits %s (undisturbed from the start: %s) and leaves other contents: %s"
                             % (what, r.rc, rs[0].rc, [p for p in files if r.files.get(p) != want.get(p)][:4]))
            if m["dry"] and i == 0:
                stale = any(p.endswith(".md") and p.startswith("docs/") and "stale content" in t for p, t in files.items())
                if stale and r.rc == 0:
                    out.fail("dryrun", "%s: exit 0 although a section is out of date" % what)
        self.dry_runs(out, case, rs)
        out.nontrivial = fired > 0

    def dry_runs(self, out, case, rs):
        """A dry run accepts exactly the folders an update would leave as they are (line ends aside)."""
        m, files = case["meta"], case["sc"]["files"]
        by = {st["mode"]: (st, r) for st, r in zip(case["sc"]["steps"], rs) if st.get("mode")}
        if len(by) < 2:
            return
        (ust, up), (vst, ver) = by["update"], by["verify"]
        diff = [p for p, t in sorted(files.items()) if p.startswith("docs/") and up.files.get(p, b"").replace(b"\r\n", b"\n") != t.encode().replace(b"\r\n", b"\n")]
        if m["dry"]:
            out.cover.append("dry run of %s folder" % ("an up to date" if up.rc == 0 and not diff else "an out of date" if up.rc == 0 else "a faulty"))
            if (rs[0].rc == 0) != (up.rc == 0 and not diff):
                out.fail("dryrun", "weaver %s: exit %s although the update of the same folder exits %s and rewrites %s" % (m["argv"], rs[0].rc, up.rc, diff[:4] or "nothing"))
        if up.rc == 0 and (ver.rc != 0 or any(ver.files.get(p) != up.files.get(p) for p in files)):
            out.fail("dryrun", "weaver %s right after the update: exit %s: %s" % (vst["argv"], ver.rc, ver.text("err")[-300:]))

    def shrink(self, case):
        st = case["sc"]["steps"]
        heads = [i for i, s in enumerate(st) if s.get("fresh")]
        if len(heads) > 1:
            for a, b in zip(heads, heads[1:] + [len(st)]):
                yield {"sc": dict(case["sc"], steps=[st[0]] + st[a:b]), "meta": case["meta"]}
        for i in range(2, len(st) - 1):
            if not st[i].get("mode") and not st[i].get("fresh") and not st[i].get("final"):
                yield {"sc": dict(case["sc"], steps=st[:i] + st[i + 1:]), "meta": case["meta"]}
        yield from (c for c in super().shrink(case) if len(c["sc"]["steps"]) == len(st))


PROP = C06
