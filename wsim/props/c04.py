"""C04: exit code 0 means that every output was written completely, whatever the disk does."""
from .fsbase import FsProp, fault_text, out_view

WRITE = ("create", "write", "mkdir", "rename", "close", "fsync")


class C04(FsProp):
    id = "C04"
    classes = WRITE
    write = True
    rule = ("seeded command that writes (resolve/diff/stats to stdout or file, package, generate, update-markdown, live-check reports, json-schema, "
            "completion, diagnostic init) x write-side faults (ENOSPC, EIO, EDQUOT, EROFS, EACCES, short writes; transient or persistent) aimed at "
            "operations the fault-free reference run performed; non-trivial when a fault fired")
    assumptions = ["a file descriptor's close is not checked by the standard library, so errors reported only by close are not injected"]
    level = "fault_enumeration"

    def pick(self, rng, ops, ref):
        cand = [o for o in ops if o[0] != "close" and (o[0] != "write" or o[1] != "<stderr>")]
        if not cand:
            return []
        fs = []
        if rng.random() < 0.15:     # full disk from some point on
            w = [i for i, o in enumerate(cand) if o[0] == "write"]
            if w:
                n = sum(1 for o in ops[:ops.index(cand[rng.choice(w)])] if o[0] == "write") + 1
                return [["write", "r/", max(1, n // 2), -1, "28", 0]]
        for _ in range(1 if rng.random() < 0.8 else 2):
            c = rng.choice(sorted({o[0] for o in cand}))
            path = rng.choice(sorted({o[1] for o in cand if o[0] == c}))
            k = rng.choice([o[2] for o in cand if o[:2] == (c, path)])
            if c == "write" and rng.random() < 0.3:
                fs.append([c, path, k, rng.choice([k, -1]), "short", rng.choice([1, 7, 100])])
                continue
            err = rng.choice({"write": [28, 5, 122], "create": [28, 13, 30, 24], "mkdir": [28, 13, 30], "rename": [28, 5, 13]}.get(c, [5]))
            fs.append([c, path, k, rng.choice([k, -1]), str(err), 0])
        return fs

    def judge(self, out, case, rs):
        ref = rs[0]
        want = out_view(ref)
        fired_any = False
        m = case["meta"]
        cmd = m["cmd"]
        for st, r in zip(case["sc"]["steps"][1:], rs[1:]):
            if not any(r.flt.values()):
                continue
            fired_any = True
            if r.special:
                out.fail("%s:hang" % cmd, "weaver %s: %s after a write fault (%s)" % (m["argv"], r.special, fault_text(st)))
                continue
            got = out_view(r)
            same = got == want and r.rc == ref.rc
            out.cover.append("same" if same else "exit%s" % r.rc)
            if same:
                continue
            bad = [k for k in sorted(set(want[1]) | set(got[1])) if want[1].get(k) != got[1].get(k)]
            if r.rc == 0:
                out.fail("%s:silent" % cmd, "weaver %s exits 0 although its output is incomplete (%s): %s" % (m["argv"], fault_text(st), bad[:5] or "stdout"))
            elif all(f[4] == "short" for f in st["plan"]["faults"]):
                out.fail("%s:short" % cmd, "weaver %s: a partial write changed the result (%s): exit %s, %s" % (m["argv"], fault_text(st), r.rc, bad[:5]))
        out.nontrivial = fired_any


PROP = C04
