"""C02: generated artifacts are a function of registry + templates, whatever the parallel schedule."""
import json

from .. import core, reggen, sim
from .c01 import C01, compare, observe


def gen_obs(r):
    o = observe(r)
    return o


def workload(rng):
    files, reg, info = reggen.gen(rng, size=rng.choice([0.6, 1.0, 2.0, 3.0]))
    broken = rng.random() < 0.12
    tf, names = reggen.templates(rng, info["v2"], broken)
    files.update(tf)
    argv = ["registry", "generate", "-r", "reg", "-t", "templates", "tgt", "out"]
    if rng.random() < 0.5:
        argv += ["-D", "p1=%s" % rng.choice(["a", "b"])]
    if info["v2"]:
        argv += ["--v2"]
    if rng.random() < 0.3:
        argv += ["--skip-policies"]
    if rng.random() < 0.3:
        files["out/keep.txt"] = "user file\n"
        files["out/groups/stale.md"] = "stale\n"
    own = {}
    for p, t in files.items():
        if p.startswith("reg/") and p.endswith(".yaml") and "manifest" not in p:
            for g in json.loads(t).get("groups", []):
                own[g["id"]] = g["type"]
    return files, argv, {"cmd": "generate", "fmt": "-", "v2": info["v2"], "deps": info["deps"], "error": "template" if broken else None,
                         "templates": names, "argv": " ".join(argv), "groups": sorted(own)}


def console(rng):
    """diff, stats or live-check rendered by the user's own templates, to standard output or to files that share names."""
    cmd = rng.choice(["diff", "diff", "stats", "live-check"])
    v2 = rng.random() < 0.4
    files, reg, info = reggen.gen_pair(rng, v2) if cmd == "diff" else reggen.gen(rng, v2=v2, size=rng.choice([0.6, 1.0, 2.0]), dep=0)
    many = ["[range(12)]", "[range(40)] | map({n: ., s: (. %% 3)})".replace("%%", "%"), "[paths | map(tostring) | join(\"/\")] | .[0:60]", "."]
    tl = []
    n = rng.randrange(1, 5)
    for i in range(n):
        name = "t%d.txt.j2" % i
        files["tpl/mine/" + name] = "T%d {{ ctx | tojson }}{%% for i in range(%d) %%} x{%% endfor %%}\n" % (i, rng.choice([0, 3, 400]))
        t = {"template": name, "filter": rng.choice(many), "application_mode": rng.choice(["each", "each", "single"])}
        x = rng.random()
        if x < 0.3:
            t["file_name"] = "same.txt"
        elif x < 0.5:
            t["file_name"] = "i{{ ctx.s | default(0) }}.txt"
        tl.append(t)
        if rng.random() < 0.2:
            tl.append(dict(t, filter=rng.choice(many)))
    files["tpl/mine/weaver.yaml"] = json.dumps({"templates": tl})
    argv = ["registry", cmd, "-r", "reg", "--templates", "tpl", "--format", "mine"]
    if cmd == "diff":
        argv += ["--baseline-registry", "base"]
    if cmd == "live-check":
        files["in.json"] = json.dumps([{"attribute": {"name": a, "value": "x"}} for a in reg.attrs[:6] + ["un.known"]])
        argv += ["--input-source", "in.json", "--input-format", "json"]
        if rng.random() < 0.5:
            argv += ["--no-stream"]
    where = rng.choice(["stdout", "stdout", "dir"])
    if where == "dir":
        argv += ["-o", "out"] if cmd != "live-check" else ["--output", "out"]
    if v2:
        argv += ["--v2"]
    return files, argv, {"cmd": cmd, "fmt": where, "v2": v2, "deps": 0, "error": None, "templates": [], "argv": " ".join(argv), "groups": []}


class C02(C01):
    id = "C02"
    rule = ("seeded registry x seeded template set (single/each modes, jq filters, set_file_name, macros, params, broken templates), for generate and for diff, stats and "
            "live-check rendered by user templates to standard output or to files (some sharing a name); reference run on one CPU and runs on 1-8 simulated CPUs under different seeded "
            "schedules, directory orders and hash seeds; exit code, standard output, diagnostics and every artifact are compared byte for byte and each-mode output is checked for one "
            "complete file per registry item; a last run with only some of the templates must produce the same contents")
    assumptions = []
    nsteps = 4

    def case(self, rng, tier, idx):
        from .. import workloads
        files, argv, meta = console(rng) if rng.random() < 0.3 else workload(rng)
        if rng.random() < 0.4:
            files, argv, meta = workloads.decorate(rng, files, argv, meta)
        if workloads.wants_publish(rng, meta, files):
            meta["publish"] = 1
        steps = []
        keep = {k: v for k, v in files.items() if k.startswith("out/")}
        for i in range(self.nsteps):
            steps.append({"argv": argv, "plan": core.calm() if i == 0 else core.sched(rng), "remove": ["out"]})
        for k in keep:
            del files[k]
        alone = None
        y = "templates/tgt/weaver.yaml"
        if y in files and not meta["error"]:
            # the same target with only some of its templates: the others must not have had a say in what these produce
            cfg = json.loads(files[y])
            cfg["templates"] = sorted(rng.sample(cfg["templates"], rng.randrange(1, len(cfg["templates"]) + 1)), key=lambda t: json.dumps(t))
            alone = {"argv": argv, "plan": core.calm() if rng.random() < 0.5 else core.sched(rng), "remove": ["out"], "write": {y: json.dumps(cfg)}, "alone": 1}
            steps.append(alone)
        return {"sc": {"files": files, "steps": [dict(s, post_write=keep) for s in steps]}, "meta": meta}

    def run(self, slot, case):
        from .. import workloads
        workloads.publish(self, slot, case)
        out = core.Outcome()
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        m = case["meta"]
        alone = [r for st, r in zip(case["sc"]["steps"], rs) if st.get("alone")]
        rs = [r for st, r in zip(case["sc"]["steps"], rs) if not st.get("alone")]
        obs = [gen_obs(r) for r in rs]
        out.cover = ["%s/%s/%s" % (m["cmd"], m["fmt"], "v2" if m["v2"] else "v1"), "exit%s" % rs[0].rc, "error:%s" % m["error"]] + m.get("extra", []) + ["t:" + n for n in m["templates"]]
        for o in obs[1:]:
            compare(out, obs[0], o, m["cmd"])
            if out.viol:
                return out
        if not m["v2"] and m["cmd"] == "generate" and "group.md" in m["templates"] and rs[0].rc == 0 and not any(
                "when" in t for t in json.loads(case["sc"]["files"]["templates/tgt/weaver.yaml"])["templates"] if t["template"] == "group.md.j2"):
            got = {p: b for p, b in rs[0].files.items() if p.startswith("out/groups/") and p != "out/groups/stale.md"}
            ends = sorted(b.decode().rstrip().split("END ")[-1] for b in got.values() if b"END " in b)
            miss = [g for g in m["groups"] if g not in ends]
            if len(ends) != len(got) or miss:
                out.fail("generate:each", "each-mode output is incomplete: %d files, %d complete, missing %s" % (len(got), len(ends), miss[:5]))
        for r in alone:
            if rs[0].rc != 0:
                continue
            new = {p: b for p, b in r.files.items() if p.startswith("out/")}
            bad = sorted(p for p in new if rs[0].files.get(p) != new[p])
            if r.rc != 0 or bad:
                out.fail("generate:alone", "generated with fewer templates: exit %s, %s" % (r.special or r.rc, "; ".join("%s holds %r instead of %r" % (
                    p, new[p][:200], (rs[0].files.get(p) or b"(nothing)")[:200]) for p in bad[:2])))
        out.nontrivial = len({r.end.get("ihash") for r in rs}) > 1
        return out


PROP = C02
