"""Shared by the file-system fault properties: one command, a calm reference run, then runs with faults aimed at
operations the reference run really performed."""
from .. import core, sim, workloads
from .c01 import norm_err

ERRTXT = {5: "Input/output error", 13: "Permission denied", 24: "Too many open files", 12: "Cannot allocate memory",
          28: "No space left", 122: "quota exceeded", 30: "Read-only file system", 23: "Too many open files in system"}


def fs_ops(r, classes):
    """The operations of a run as (class, path, k): k-th operation of that class on a path containing this path."""
    seen = [tuple(l.split()[1:4:2]) for l in r.log if l.startswith("F ")]
    seen = [x for x in seen if x[0] in classes]
    return [(c, p, sum(1 for c2, p2 in seen[:i] if c2 == c and p in p2) + 1) for i, (c, p) in enumerate(seen)]


def out_view(r):
    return r.text("out"), r.norm_files()


class FsProp(core.Prop):
    classes = ()
    k = 4
    write = False
    stub = "none (single process, no peers)"

    def make(self, rng):
        return workloads.fs_cmd(rng, self.write)

    def pick(self, rng, ops, ref):
        """-> list of faults"""
        raise NotImplementedError

    def case(self, rng, tier, idx):
        files, argv, meta = self.make(rng)
        steps = [{"argv": argv, "plan": core.calm()}]
        for _ in range(self.k):
            p = core.sched(rng, perturb=rng.random() < 0.3) if rng.random() < 0.4 else core.calm(seed=rng.randrange(1, 1 << 40))
            p["hashseed"] = 1
            steps.append({"argv": argv, "plan": p, "fresh": 1, "pick": rng.randrange(1 << 40)})
        return {"sc": {"files": files, "steps": steps}, "meta": meta}

    def resolve(self, slot, case):
        """Aim the faults at operations of the reference run."""
        import random
        workloads.publish(self, slot, case)
        sc = case["sc"]
        ref = self.ref(slot, "ref", {"files": sc["files"], "steps": [sc["steps"][0]]})[0]
        if ref.special == "INTERNAL":
            return None
        ops = None
        for st in sc["steps"][1:]:
            if "pick" in st:
                if ops is None:
                    ops = fs_ops(ref, self.classes)
                rng = random.Random(st.pop("pick"))
                st["plan"]["faults"] = self.pick(rng, ops, ref) if ops else []
                self.after_pick(rng, st)
        return ref

    def after_pick(self, rng, st):
        pass

    def run(self, slot, case):
        out = core.Outcome()
        ref = self.resolve(slot, case)
        if ref is None:
            out.skip = "internal"
            return out
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        m = case["meta"]
        out.cover = ["%s/exit%s" % (m["cmd"], ref.rc)] + (["archive"] if m.get("archive") else []) + (["config"] if m.get("config") else []) + m.get("extra", [])
        self.judge(out, case, rs)
        return out

    def shrink(self, case):
        st = case["sc"]["steps"]
        if len(st) > 2:
            for i in range(1, len(st)):
                c = sim.clone(case)
                c["sc"]["steps"] = [st[0], sim.clone(st[i])]
                yield c
        for f in sorted(case["sc"]["files"]):
            if f.endswith("manifest.yaml"):
                continue
            c = sim.clone(case)
            del c["sc"]["files"][f]
            yield c

    def describe(self, case):
        return {"meta": case["meta"], "faults": [s["plan"].get("faults") for s in case["sc"]["steps"][1:]]}


def fault_text(st):
    return ", ".join("%s %s #%s -> %s" % (f[0], f[1] or "", f[2], f[4]) for f in st["plan"].get("faults", []))
