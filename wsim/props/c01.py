"""C01: what weaver computes from a registry does not depend on scheduling, directory order or hash seeds."""
import difflib

from .. import core, reggen, sim


def norm_err(t):
    return "\n".join(l for l in t.split("\n") if "execution time" not in l)


def observe(r):
    return {"exit code": r.rc if not r.special else r.special, "stdout": r.text("out"), "diagnostics": norm_err(r.text("err")),
            "files": r.norm_files()}


def compare(out, ref, got, what):
    for k in ("exit code", "stdout", "files", "diagnostics"):
        if ref[k] == got[k]:
            continue
        if k == "files":
            a, b = ref[k], got[k]
            names = sorted(set(a) ^ set(b)) or sorted(n for n in a if a[n] != b[n])
            d = "\n".join(list(difflib.unified_diff(a.get(names[0], b"").decode("utf8", "replace").split("\n"),
                                                    b.get(names[0], b"").decode("utf8", "replace").split("\n"), lineterm="", n=1))[:30])
            det = "%s differ(s): %s\n%s" % (k, names[:5], d)
        elif k == "exit code":
            det = "exit %s vs %s; stderr: %s" % (ref[k], got[k], got["diagnostics"][-800:])
        else:
            det = k + ":\n" + "\n".join(list(difflib.unified_diff(ref[k].split("\n"), got[k].split("\n"), lineterm="", n=1))[:40])
        out.fail("%s:%s" % (what, k), "%s: %s depends on the schedule, directory order or hash seed: %s" % (what, k, det))
        return


def workload(rng):
    cmd = rng.choice(["resolve", "resolve", "check", "check", "check", "package", "package", "stats", "diff", "diff", "checkbase"])
    if rng.random() < 0.08:
        from .. import workloads
        return workloads.md_workload(rng, bad=0.3)
    if cmd in ("diff", "checkbase"):
        files, reg, info = reggen.gen_pair(rng, v2=rng.random() < 0.5)
        info["error"] = None
    else:
        files, reg, info = reggen.gen(rng, error=rng.random() < 0.35, v2=True if cmd == "package" else None,
                                      size=rng.choice([0.6, 1.0, 1.0, 2.0]), upgrades=rng.random() < 0.2)
    argv = ["registry", "check" if cmd == "checkbase" else cmd, "-r", "reg"]
    fmt = "-"
    if cmd == "resolve":
        fmt = rng.choice(["yaml", "json"])
        argv += ["--format", fmt]
        if rng.random() < 0.3:
            argv += ["--lineage"]
        if rng.random() < 0.5:
            argv += ["-o", "out.txt"]
    elif cmd in ("check", "checkbase"):
        files.update(reggen.policies(rng, reg, 0.15))
        argv += ["-p", "pol"]
        if rng.random() < 0.3:
            argv += ["--future"]
        fmt = rng.choice(["ansi", "json", "gh_workflow_command"])
        argv += ["--diagnostic-format", fmt]
        if rng.random() < 0.3:
            argv += ["--diagnostic-stdout"]
        if cmd == "checkbase":
            argv += ["--baseline-registry", "base"]
    elif cmd == "package":
        argv += ["-o", "out", "--resolved-registry-uri", "https://example.com/resolved.yaml"]
    elif cmd == "diff":
        fmt = rng.choice(["json", "yaml", "markdown", "ansi"])
        argv += ["--format", fmt, "--baseline-registry", "base"]
        if rng.random() < 0.4:
            argv += ["-o", "out"]
    elif cmd == "stats":
        fmt = rng.choice(["json", "yaml", "text", "jsonl"])
        argv += ["--format", fmt]
    if info["v2"] or (cmd in ("resolve", "stats", "diff", "check") and rng.random() < 0.15):
        argv += ["--v2"]
    return files, argv, {"cmd": cmd, "fmt": fmt, "v2": info["v2"], "deps": info["deps"], "error": info["error"], "argv": " ".join(argv)}


class C01(core.Prop):
    id = "C01"
    rule = ("seeded registry (v1/v2, 0-2 dependencies, imports, extends, refinements, optionally invalid) x one command (resolve, check with "
            "policies, package, stats, diff, update-markdown); one calm reference run and several runs under different seeded schedules, directory orders, hash "
            "seeds, short I/O and EINTR; non-trivial when a perturbed run took a different interleaving or directory order than the reference")
    assumptions = ["the total-execution-time line and the --display-policy-coverage debug report are not outputs", "threads are serialised: data races below the level of the sync "
                   "operations, system calls and allocations used as preemption points are not explored"]
    nsteps = 4

    def case(self, rng, tier, idx):
        from .. import workloads
        files, argv, meta = workload(rng)
        if rng.random() < 0.4:
            files, argv, meta = workloads.decorate(rng, files, argv, meta)
        if workloads.wants_publish(rng, meta, files):
            meta["publish"] = 1
        clear = ["out", "out.txt"]
        docs = {p: t for p, t in files.items() if p.startswith("docs/")}
        steps = [{"argv": argv, "plan": core.calm(), "remove": clear, "write": docs}]
        for _ in range(self.nsteps - 1):
            steps.append({"argv": argv, "plan": core.sched(rng), "remove": clear, "write": docs})
        return {"sc": {"files": files, "steps": steps}, "meta": meta}

    def run(self, slot, case):
        from .. import workloads
        workloads.publish(self, slot, case)
        out = core.Outcome()
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        obs = [observe(r) for r in rs]
        m = case["meta"]
        out.cover = ["%s/%s/%s" % (m["cmd"], m["fmt"], "v2" if m["v2"] else "v1"), "exit%s" % rs[0].rc, "error:%s" % m["error"]] + m.get("extra", [])
        for r, o in zip(rs[1:], obs[1:]):
            compare(out, obs[0], o, m["cmd"])
            if out.viol:
                break
        out.nontrivial = len({r.end.get("ihash") for r in rs}) > 1
        return out

    def shrink(self, case):
        st = case["sc"]["steps"]
        if len(st) > 2:
            for i in range(1, len(st)):
                c = sim.clone(case)
                del c["sc"]["steps"][i]
                yield c
        for f in sorted(case["sc"]["files"]):
            if f.endswith("manifest.yaml"):
                continue
            c = sim.clone(case)
            del c["sc"]["files"][f]
            yield c


PROP = C01
