"""C05: killed at any point and run again, a command gives the result of an undisturbed run; inputs survive."""
from .. import core
from .fsbase import FsProp, fault_text, out_view

CLS = ("open", "create", "read", "write", "mkdir", "rename", "unlink", "opendir")
OUT = ("out", "out.txt", "out.json")


def is_output(p, cmd):
    return p.split("/")[0] in OUT or (cmd == "update-markdown" and p.startswith("docs/"))


class C05(FsProp):
    id = "C05"
    classes = CLS
    write = True
    k = 3
    rule = ("seeded command that writes x process kill before, after or in the middle of a file-system operation the fault-free reference run performed "
            "(one to two kills in a row), then an undisturbed re-run in the same folders; the re-run must end with the files and exit code of a run that was "
            "never disturbed, and inputs are compared after every kill; non-trivial when a kill happened")
    assumptions = ["process kill, not power loss: data handed to the operating system survives"]
    level = "fault_enumeration"

    def case(self, rng, tier, idx):
        files, argv, meta = self.make(rng)
        steps = [{"argv": argv, "plan": core.calm()}]
        for _ in range(self.k):
            for j in range(1 if rng.random() < 0.8 else 2):
                p = core.sched(rng) if rng.random() < 0.4 else core.calm(seed=rng.randrange(1, 1 << 40))
                p["hashseed"] = 1
                s = {"argv": argv, "plan": p, "pick": rng.randrange(1 << 40)}
                if not j:
                    s["fresh"] = 1
                steps.append(s)
            steps.append({"argv": argv, "plan": core.calm(), "rerun": 1})
        return {"sc": {"files": files, "steps": steps}, "meta": meta}

    def pick(self, rng, ops, ref):
        wr = [o for o in ops if o[0] in ("create", "write", "mkdir", "rename", "unlink") and not o[1].startswith("<")]
        cand = wr if wr and rng.random() < 0.8 else [o for o in ops if not o[1].startswith("<")]
        if not cand:
            return []
        c = rng.choice(sorted({o[0] for o in cand}))
        path = rng.choice(sorted({o[1] for o in cand if o[0] == c}))
        k = rng.choice([o[2] for o in cand if o[:2] == (c, path)])
        act = rng.choice(["crash", "crash_after", "crash_mid"] if c == "write" else ["crash", "crash_after"] if c not in ("read", "open", "opendir") else ["crash"])
        return [[c, path, k, k, act, rng.choice([1, 40, 600, 4000, 6000]) if act == "crash_mid" else 0]]

    def judge(self, out, case, rs):
        ref = rs[0]
        want = out_view(ref)
        m = case["meta"]
        cmd = m["cmd"]
        steps = case["sc"]["steps"]
        inputs = {p for p in case["sc"]["files"] if not is_output(p, cmd)}
        crashed, hist = 0, []
        orig = {p: v for p, v in want[1].items() if p in inputs}
        for st, r in zip(steps[1:], rs[1:]):
            if st.get("fresh"):
                hist = []
            if not st.get("rerun"):
                if r.rc == 137:
                    crashed += 1
                hist.append(fault_text(st))
                changed = [p for p in inputs if r.norm_files().get(p) != orig.get(p)]
                if changed:
                    out.fail("%s:inputs" % cmd, "weaver %s killed (%s): input files changed: %s" % (m["argv"], hist, changed[:5]))
                continue
            got = out_view(r)
            out.cover.append("rerun exit%s" % r.rc)
            if r.rc != ref.rc or got != want:
                bad = [k for k in sorted(set(want[1]) | set(got[1])) if want[1].get(k) != got[1].get(k)]
                out.fail("%s:rerun" % cmd, "weaver %s, killed (%s) and run again: exit %s instead of %s, differing files %s%s\n%s"
                         % (m["argv"], "; ".join(hist), r.special or r.rc, ref.rc, bad[:5], "" if got[0] == want[0] else ", stdout differs", r.text("err")[-400:]))
        out.nontrivial = crashed > 0
        out.cover.append("kills:%d" % crashed)

    def shrink(self, case):
        st = case["sc"]["steps"]
        heads = [i for i, s in enumerate(st) if s.get("fresh")]
        if len(heads) > 1:
            for a, b in zip(heads, heads[1:] + [len(st)]):
                yield {"sc": dict(case["sc"], steps=[st[0]] + st[a:b]), "meta": case["meta"]}
        yield from (c for c in super().shrink(case) if len(c["sc"]["steps"]) == len(st))


PROP = C05
