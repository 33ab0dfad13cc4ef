"""C03: an input that cannot be read is an error, never a silently different result."""
from .fsbase import FsProp, fault_text, out_view


class C03(FsProp):
    id = "C03"
    classes = ("open", "read", "opendir")
    rule = ("seeded command (resolve, check, package, stats, diff, generate, update-markdown, live-check from files; folders, archives, project "
            "config) x read-side faults (EIO, EMFILE, ENOMEM, EACCES on open/read/opendir/readdir) aimed at operations the fault-free reference run "
            "performed; non-trivial when a fault fired")
    assumptions = ["a failing stat is reported by the standard library as 'does not exist' and is not injected",
                   "template folders the process has no permission to enter are skipped by design (documented in the loader), so EACCES is not "
                   "injected on opendir"]
    level = "fault_enumeration"

    def pick(self, rng, ops, ref):
        fs = []
        for _ in range(1 if rng.random() < 0.8 else 2):
            if rng.random() < 0.15:
                n = rng.randrange(1, max(1, ref.cnt.get("readdir", 1)) + 1)
                fs.append(["readdir", None, n, n, "5", 0])
                continue
            cand = [o for o in ops if not o[1].startswith("<")]
            if not cand:
                continue
            # first by class, then by path, so that rare operations get their share
            c = rng.choice(sorted({o[0] for o in cand}))
            path = rng.choice(sorted({o[1] for o in cand if o[0] == c}))
            k = rng.choice([o[2] for o in cand if o[:2] == (c, path)])
            err = rng.choice([5, 5, 24, 12] if c == "opendir" else [5, 5, 24, 12, 13] if c == "open" else [5])
            fs.append([c, path, k, rng.choice([k, k, -1]), str(err), 0])
        return fs

    def judge(self, out, case, rs):
        ref = rs[0]
        want = out_view(ref)
        fired_any = False
        for st, r in zip(case["sc"]["steps"][1:], rs[1:]):
            if not any(r.flt.values()):
                continue
            fired_any = True
            cmd = case["meta"]["cmd"]
            if r.special:
                out.fail("%s:hang" % cmd, "weaver %s: %s after a read fault (%s)" % (case["meta"]["argv"], r.special, fault_text(st)))
                continue
            if r.rc in (101, 134, 139, -6, -11):
                out.fail("%s:crash" % cmd, "weaver %s: crashed (%s) on a read fault (%s): %s" % (case["meta"]["argv"], r.rc, fault_text(st), r.text("err")[-600:]))
                continue
            same = out_view(r) == want and r.rc == ref.rc
            out.cover.append("same" if same else "exit%s" % r.rc)
            if same:
                continue
            if r.rc == 0:
                out.fail("%s:silent" % cmd, "weaver %s exits 0 with a different result although an input could not be read (%s)"
                         % (case["meta"]["argv"], fault_text(st)))
            elif ref.rc != 0:
                # the command fails anyway: it must not report a part of the same findings as if it were all of them
                t = r.text("err") + r.text("out")
                full = set((ref.text("err") + ref.text("out")).split("\n"))
                new = [l for l in t.split("\n") if l not in full and "execution time" not in l]
                report = cmd == "live-check" and (r.text("out").lstrip().startswith("{") or len(r.files) > len(case["sc"]["files"]))
                if not new or report:
                    out.fail("%s:unreported" % cmd, "weaver %s reports less than without the fault and no error about the input that could not be read "
                             "(%s): %s" % (case["meta"]["argv"], fault_text(st), t[-1500:]))
        out.nontrivial = fired_any


PROP = C03
