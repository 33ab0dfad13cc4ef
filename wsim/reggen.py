"""Seeded generator of semantic-convention registries (definition v1 and v2), policies and templates.

Everything is a plain dict {path: text}; registries are written as JSON, which is YAML.
"""
import json

STAB = ["stable", "development", "release_candidate", "alpha", "beta"]
TYPES = ["string", "int", "double", "boolean", "string[]", "int[]", "template[string]", "enum"]


def jd(x):
    return json.dumps(x, indent=1)


def example(rng, t):
    w = lambda: rng.choice(["alpha", "beta", "gamma", "delta", "x"]) + str(rng.randrange(9))
    return {"string": [w(), w()], "int": [rng.randrange(100), rng.randrange(100)], "double": [rng.randrange(10) + 0.5],
            "string[]": [[w(), w()]], "int[]": [[1, 2]], "template[string]": ["{\"k\": \"v\"}"]}.get(t)


def attr_body(rng, name, t=None):
    t = t or rng.choice(TYPES)
    d = {"brief": "The %s of it %d." % (name.split(".")[-1], rng.randrange(1000)),
         "stability": rng.choice(STAB)}
    if t == "enum":
        d["type"] = {"members": [{"id": "m%d" % i, "value": ("v%d" % i), "brief": "Member %d" % i,
                                  "stability": rng.choice(STAB)} for i in range(rng.randrange(1, 4))]}
    else:
        d["type"] = t
        ex = example(rng, t)
        if ex:
            d["examples"] = ex
    if rng.random() < 0.3:
        d["note"] = "Note %d about `%s`.\n\nSecond paragraph." % (rng.randrange(1000), name)
    if rng.random() < 0.12:
        d["deprecated"] = rng.choice([{"reason": "obsoleted", "note": "old"}, {"reason": "uncategorized", "note": "gone"}])
    return d


def req(rng):
    return rng.choice(["required", "recommended", "opt_in", {"conditionally_required": "if cond %d" % rng.randrange(9)},
                       {"recommended": "when %d" % rng.randrange(9)}])


class Reg:
    """A generated registry; names are recorded so that templates, telemetry and refs can use them."""

    def __init__(self, dir, pfx, v2):
        self.dir, self.pfx, self.v2 = dir, pfx, v2
        self.attrs, self.metrics, self.spans, self.events, self.entities, self.groups = [], [], [], [], [], []
        self.files = {}
        self.types = {}


def spread(rng, reg, items, nfiles, key, top):
    """Distribute items over files in nested directories."""
    names = []
    for i in range(nfiles):
        sub = rng.choice(["", "", "sub/", "sub/deep/", "zz/"])
        names.append("%s/%s%s%d.yaml" % (reg.dir, sub, rng.choice(["a", "m", "z", "k"]), i))
    for k, it in items:
        f = rng.choice(names)
        doc = reg.files.setdefault(f, dict(top))
        doc.setdefault(k, []).append(it)


def gen_v1(rng, dir, pfx, dep=None, size=1.0, nfiles=None, simple_types=False):
    reg = Reg(dir, pfx, False)
    items = []
    nns = max(1, int(rng.randrange(1, 4) * size))
    for n in range(nns):
        ns = "%s.ns%d" % (pfx, n)
        al = []
        for j in range(max(1, int(rng.randrange(1, 6) * size))):
            name = "%s.attr%d" % (ns, j)
            t = rng.choice(["string", "int", "boolean", "double", "enum"]) if simple_types else None
            b = attr_body(rng, name, t)
            reg.types[name] = b["type"] if isinstance(b["type"], str) else "enum"
            b["id"] = name
            al.append(b)
            reg.attrs.append(name)
        items.append(("groups", {"id": "registry." + ns, "type": "attribute_group", "brief": "Registry %s." % ns,
                                 "display_name": ns.title() + " Attributes", "attributes": al}))
        reg.groups.append("registry." + ns)
    pool = list(reg.attrs) + (list(dep.attrs) if dep else [])
    usable = [a for a in pool if not str((dep.types if dep else {}).get(a, reg.types.get(a))).startswith("template")] or pool

    def refs(n, full=True):
        out = []
        for a in rng.sample(pool, min(n, len(pool))):
            r = {"ref": a}
            if rng.random() < 0.5:
                r["requirement_level"] = req(rng)
            if rng.random() < 0.3:
                r["brief"] = "Overridden brief %d." % rng.randrange(1000)
            if rng.random() < 0.15:
                r["note"] = "Overridden note %d." % rng.randrange(1000)
            if rng.random() < 0.1:
                r["tag"] = "tag-%d" % rng.randrange(3)
            out.append(r)
        return out
    mixins = []
    for i in range(max(1, int(rng.randrange(1, 4) * size))):
        gid = "%s.common%d" % (pfx, i)
        g = {"id": gid, "type": "attribute_group", "brief": "Common %d." % i, "attributes": refs(rng.randrange(1, 4))}
        if mixins and rng.random() < 0.6:
            g["extends"] = rng.choice(mixins)
        mixins.append(gid)
        items.append(("groups", g))
    for i in range(max(1, int(rng.randrange(1, 5) * size))):
        nm = "%s.metric%d" % (pfx, i)
        g = {"id": "metric." + nm, "type": "metric", "metric_name": nm, "brief": "Metric %d." % i,
             "instrument": rng.choice(["counter", "gauge", "histogram", "updowncounter"]), "unit": rng.choice(["s", "By", "{item}", "1"]),
             "stability": rng.choice(STAB), "attributes": refs(rng.randrange(0, 4))}
        if rng.random() < 0.4:
            g["extends"] = rng.choice(mixins)
        reg.metrics.append(nm)
        reg.types[nm] = (g["instrument"], g["unit"])
        items.append(("groups", g))
    for i in range(max(1, int(rng.randrange(1, 4) * size))):
        gid = "span.%s.span%d" % (pfx, i)
        g = {"id": gid, "type": "span", "span_kind": rng.choice(["client", "server", "internal", "producer"]),
             "brief": "Span %d." % i, "stability": rng.choice(STAB), "attributes": refs(rng.randrange(0, 5))}
        if rng.random() < 0.5:
            g["extends"] = rng.choice(mixins + ["span.%s.span%d" % (pfx, k) for k in range(i)])
        reg.spans.append(gid)
        items.append(("groups", g))
    for i in range(max(1, int(rng.randrange(1, 3) * size))):
        nm = "%s.event%d" % (pfx, i)
        items.append(("groups", {"id": "event." + nm, "type": "event", "name": nm, "brief": "Event %d." % i,
                                 "stability": rng.choice(STAB), "attributes": refs(rng.randrange(0, 4))}))
        reg.events.append(nm)
    for i in range(max(1, int(rng.randrange(1, 3) * size))):
        nm = "%s.entity%d" % (pfx, i)
        at = refs(rng.randrange(1, 4))
        for a in at:
            a["role"] = rng.choice(["identifying", "descriptive"])
        items.append(("groups", {"id": "entity." + nm, "type": "entity", "name": nm, "brief": "Entity %d." % i,
                                 "stability": rng.choice(STAB), "attributes": at}))
        reg.entities.append(nm)
    spread(rng, reg, items, nfiles or rng.randrange(1, 7), "groups", {})
    if dep:
        imp = {}
        if dep.metrics and rng.random() < 0.7:
            imp["metrics"] = [rng.choice([dep.pfx + ".*", rng.choice(dep.metrics)])]
        if dep.events and rng.random() < 0.6:
            imp["events"] = [rng.choice([dep.pfx + ".*", rng.choice(dep.events)])]
        if dep.entities and rng.random() < 0.6:
            imp["entities"] = [rng.choice([dep.pfx + ".*", rng.choice(dep.entities)])]
        if imp:
            reg.files[rng.choice(sorted(reg.files))]["imports"] = imp
    return reg


def gen_v2(rng, dir, pfx, dep=None, size=1.0, nfiles=None):
    reg = Reg(dir, pfx, True)
    items = []
    for j in range(max(2, int(rng.randrange(2, 9) * size))):
        name = "%s.ns%d.attr%d" % (pfx, rng.randrange(3), j)
        b = attr_body(rng, name)
        b["key"] = name
        reg.types[name] = b["type"] if isinstance(b["type"], str) else "enum"
        reg.attrs.append(name)
        items.append(("attributes", b))
    pool = list(reg.attrs) + (list(dep.attrs) if dep else [])

    def refs(n, lvl=True):
        out = []
        for a in rng.sample(pool, min(n, len(pool))):
            r = {"ref": a}
            if lvl and rng.random() < 0.5:
                r["requirement_level"] = req(rng)
            if rng.random() < 0.3:
                r["brief"] = "Overridden brief %d." % rng.randrange(1000)
            out.append(r)
        return out
    groups = []
    for i in range(max(1, int(rng.randrange(1, 4) * size))):
        gid = "%s.group%d" % (pfx, i)
        vis = rng.choice(["public", "internal"])
        g = {"id": gid, "visibility": vis, "attributes": refs(rng.randrange(1, 4))}
        if vis == "public":
            g.update(brief="Group %d." % i, stability=rng.choice(STAB))
        if groups and rng.random() < 0.4:
            g["attributes"].append({"ref_group": rng.choice(groups)})
        groups.append(gid)
        items.append(("attribute_groups", g))

    def with_groups(n):
        at = refs(n)
        if rng.random() < 0.5:
            at.append({"ref_group": rng.choice(groups)})
        return at
    for i in range(max(1, int(rng.randrange(1, 5) * size))):
        nm = "%s.metric%d" % (pfx, i)
        m = {"name": nm, "brief": "Metric %d." % i, "instrument": rng.choice(["counter", "gauge", "histogram", "updowncounter"]),
             "unit": rng.choice(["s", "By", "{item}", "1"]), "stability": rng.choice(STAB), "attributes": with_groups(rng.randrange(0, 4))}
        items.append(("metrics", m))
        reg.metrics.append(nm)
        reg.types[nm] = (m["instrument"], m["unit"])
        if rng.random() < 0.4:
            items.append(("metric_refinements", {"id": "metric.%s.refined%d" % (pfx, i), "ref": nm, "brief": "Refined %d." % i,
                                                 "attributes": refs(rng.randrange(0, 3))}))
    for i in range(max(1, int(rng.randrange(1, 4) * size))):
        nm = "%s.span%d" % (pfx, i)
        items.append(("spans", {"type": nm, "kind": rng.choice(["client", "server", "internal"]), "name": {"note": "Span name %d." % i},
                                "brief": "Span %d." % i, "stability": rng.choice(STAB), "attributes": with_groups(rng.randrange(0, 4))}))
        reg.spans.append(nm)
        if rng.random() < 0.4:
            items.append(("span_refinements", {"id": "span.%s.refined%d" % (pfx, i), "ref": nm, "brief": "Refined span.",
                                               "attributes": refs(rng.randrange(0, 3))}))
    for i in range(max(1, int(rng.randrange(1, 3) * size))):
        nm = "%s.event%d" % (pfx, i)
        items.append(("events", {"name": nm, "brief": "Event %d." % i, "stability": rng.choice(STAB),
                                 "attributes": with_groups(rng.randrange(0, 3))}))
        reg.events.append(nm)
    for i in range(max(1, int(rng.randrange(1, 3) * size))):
        nm = "%s.entity%d" % (pfx, i)
        ids = rng.sample(reg.attrs, min(2, len(reg.attrs)))
        items.append(("entities", {"type": nm, "brief": "Entity %d." % i, "stability": rng.choice(STAB),
                                   "identity": [{"ref": ids[0]}], "description": [{"ref": a} for a in ids[1:]]}))
        reg.entities.append(nm)
    spread(rng, reg, items, nfiles or rng.randrange(1, 6), None, {"file_format": "definition/2"})
    if dep:
        imp = {}
        if dep.metrics and rng.random() < 0.7:
            imp["metrics"] = [rng.choice([dep.pfx + ".*", rng.choice(dep.metrics)])]
        if dep.events and rng.random() < 0.6:
            imp["events"] = [rng.choice([dep.pfx + ".*", rng.choice(dep.events)])]
        if dep.v2 and dep.spans and rng.random() < 0.5:
            imp["spans"] = [rng.choice(dep.spans)]
        if imp:
            reg.files[rng.choice(sorted(reg.files))]["imports"] = imp
    return reg


def inject_error(rng, reg):
    """Make the registry invalid in a way weaver documents as an error; returns its kind (or None)."""
    fs = sorted(reg.files)
    kind = rng.choice(["dup_attr", "bad_ref", "dup_group", "dup_metric", "bad_yaml", "two_bad_refs", "bad_field"])
    f = rng.choice(fs)
    if reg.v2:
        if kind in ("dup_attr", "dup_group"):
            kind = "bad_ref"
        if kind == "bad_ref":
            reg.files[f].setdefault("spans", []).append({"type": reg.pfx + ".bad", "kind": "client", "name": {"note": "n"}, "brief": "b",
                                                         "stability": "stable", "attributes": [{"ref": "no.such.attr"}]})
        elif kind == "two_bad_refs":
            for i in range(3):
                reg.files[rng.choice(fs)].setdefault("events", []).append({"name": "%s.bad%d" % (reg.pfx, i), "brief": "b", "stability": "stable",
                                                                           "attributes": [{"ref": "no.such%d" % i}]})
        elif kind == "dup_metric":
            reg.files[f].setdefault("metrics", []).append({"name": reg.metrics[0], "brief": "b", "instrument": "counter", "unit": "1",
                                                           "stability": "stable"})
        elif kind == "bad_yaml":
            reg.files[reg.dir + "/bad.yaml"] = "file_format: definition/2\nattributes: [ {"
        else:
            reg.files[f].setdefault("attributes", []).append({"key": "q.q", "type": "strng", "brief": "b", "stability": "stable"})
        return kind
    g = lambda d: reg.files[rng.choice(fs)].setdefault("groups", []).append(d)
    if kind == "dup_attr":
        for i in range(2):
            g({"id": "registry.dup%d" % i, "type": "attribute_group", "brief": "b", "attributes": [
                {"id": "dup.attr", "type": "string", "brief": "b%d" % i, "stability": "stable", "examples": ["x"]}]})
    elif kind == "bad_ref":
        g({"id": "span.bad", "type": "span", "span_kind": "client", "brief": "b", "stability": "stable", "attributes": [{"ref": "no.such"}]})
    elif kind == "two_bad_refs":
        for i in range(3):
            g({"id": "span.bad%d" % i, "type": "span", "span_kind": "client", "brief": "b", "stability": "stable",
               "attributes": [{"ref": "no.such%d" % i}, {"ref": "none%d" % i}]})
    elif kind == "dup_group":
        for i in range(2):
            g({"id": "span.dup", "type": "span", "span_kind": "client", "brief": "b%d" % i, "stability": "stable",
               "attributes": [{"ref": reg.attrs[0]}]})
    elif kind == "dup_metric":
        for i in range(2):
            g({"id": "metric.dup%d" % i, "type": "metric", "metric_name": "dup.metric", "brief": "b", "instrument": "counter", "unit": "1",
               "stability": "stable"})
    elif kind == "bad_yaml":
        reg.files[reg.dir + "/bad.yaml"] = "groups:\n  - id: [\n"
    else:
        g({"id": "x.bad", "type": "attribute_group", "brief": "b", "attributes": [{"id": "a.b", "type": "nosuchtype", "brief": "b"}]})
    return kind


def manifest(reg, deps=(), name="manifest.yaml"):
    m = {"name": reg.pfx, "description": "Registry " + reg.pfx, "schema_url": "https://%s.example.com/schemas/1.0.0" % reg.pfx}
    if not reg.v2:
        m["repository_url"] = "https://%s.example.com/repo" % reg.pfx
        m.pop("repository_url")
    if deps:
        m["dependencies"] = [{"schema_url": "https://%s.example.com/schemas/1.0.0" % d.pfx, "registry_path": d.dir} for d in deps]
    return m


def render(reg):
    return {p: (d if isinstance(d, str) else jd(d)) for p, d in reg.files.items()}


def gen(rng, v2=None, dep=None, error=False, size=1.0, dir="reg", pfx="app", simple_types=False, upgrades=False):
    """-> (files, reg, info)"""
    v2 = rng.random() < 0.5 if v2 is None else v2
    ndep = rng.choice([0, 0, 1, 1, 2]) if dep is None else dep
    files, deps, prev = {}, [], None
    for i in range(ndep):
        d = (gen_v2 if v2 else gen_v1)(rng, "dep%d" % i, "dep%d" % i, None if not prev else prev, size=size * 0.7)
        d.files[d.dir + "/manifest.yaml"] = jd(manifest(d, [prev] if prev else []))
        files.update(render(d))
        prev = d
    reg = gen_v2(rng, dir, pfx, prev, size) if v2 else gen_v1(rng, dir, pfx, prev, size, simple_types=simple_types)
    reg.dep = prev
    kind = inject_error(rng, reg) if error else None
    reg.files[dir + "/manifest.yaml"] = jd(manifest(reg, [prev] if prev else []))
    if rng.random() < 0.5:
        reg.files[dir + "/README.md"] = "# not a registry file\n"
    files.update(render(reg))
    if upgrades and ndep:
        upgraded(rng, files, "dep%d" % rng.randrange(ndep), dir, v2)
    return files, reg, {"v2": v2, "deps": ndep, "error": kind}


def upgraded(rng, files, mid, main, v2):
    """Libraries that the main registry asks for in an older version than one of its dependencies."""
    libs = ["lib%s" % c for c in "abcdefgh"[:rng.randrange(2, 9)]]
    rng.shuffle(libs)
    dm, dd = json.loads(files[main + "/manifest.yaml"]), json.loads(files[mid + "/manifest.yaml"])
    for n in libs:
        for ver, d, m in (("1.0.0", n + "_old", dm), (rng.choice(["1.0.0", "1.1.0", "1.3.0"]), n + "_new", dd)):
            url = "https://%s.example.com/schemas/%s" % (n, ver)
            files[d + "/manifest.yaml"] = jd({"name": n, "description": "x", "schema_url": url})
            a = {"key" if v2 else "id": n + ".attr", "type": "string", "brief": "b", "stability": "stable", "examples": ["x"]}
            files[d + "/a.yaml"] = jd({"file_format": "definition/2", "attributes": [a]} if v2 else {"groups": [{"id": "registry." + n, "type": "attribute_group", "brief": "b", "attributes": [a]}]})
            m.setdefault("dependencies", []).append({"schema_url": url, "registry_path": d})
    files[main + "/manifest.yaml"], files[mid + "/manifest.yaml"] = jd(dm), jd(dd)


POLICY_V1 = """package %(stage)s

import rego.v1

v(id, g, a) := r if {
	r := {"id": id, "type": "semconv_attribute", "category": "cat", "group": g, "attr": a}
}

deny contains v("attr_in_group", g.id, a) if {
	g := %(coll)s[_]
	x := g.attributes[_]
	a := object.get(x, "name", object.get(x, "id", object.get(x, "ref", "?")))
	endswith(a, "%(suffix)s")
}
"""
POLICY_B2 = """package before_resolution

import rego.v1

deny contains r if {
	some k in ["attributes", "metrics", "events", "spans", "entities", "attribute_groups"]
	x := input[k][_]
	a := object.get(x, "key", object.get(x, "name", object.get(x, "type", object.get(x, "id", "?"))))
	endswith(a, "%(suffix)s")
	r := {"id": "b2", "type": "semconv_attribute", "category": k, "group": "g", "attr": a}
}
"""
POLICY_V2 = """package after_resolution

import rego.v1

v(id, g, a) := r if {
	r := {"id": id, "type": "semconv_attribute", "category": "cat", "group": g, "attr": a}
}

deny contains v("attr_in_signal", m.name, a.key) if {
	m := input.registry.metrics[_]
	a := m.attributes[_]
	endswith(a.key, "%(suffix)s")
}

deny contains v("attr_in_reg", "attrs", a.key) if {
	a := input.registry.attributes[_]
	endswith(a.key, "%(suffix)s")
}
"""


POLICY_CMP = """
deny contains r if {
	x := %(old)s[_]
	count([y | y := %(new)s[_]; y.%(id)s == x.%(id)s]) == 0
	r := {"id": "gone", "type": "semconv_attribute", "category": "%(n)s", "group": "g", "attr": x.%(id)s}
}

deny contains r if {
	x := %(old)s[_]
	y := %(new)s[_]
	y.%(id)s == x.%(id)s
	y.deprecated != object.get(x, "deprecated", {})
	r := {"id": "newly_deprecated", "type": "advice", "advice_type": "newly_deprecated", "advice_level": "information", "advice_context": {"k": x.%(id)s}, "message": "m"}
}
"""


def policies(rng, reg, broken=0.0):
    out = {}
    if rng.random() < broken:
        for i in range(rng.randrange(1, 4)):
            out["pol/%sbad%d.rego" % (rng.choice(["", "sub/"]), i)] = rng.choice(["package after_resolution\n\ndeny contains x if {\n\tnosuch.fn(1) ==\n}\n", "not rego at all", "package after_resolution\n\nimport rego.v1\n\ndeny contains r if {\n\tr := undefined_function(%d)\n}\n" % i])
    suf = rng.choice(["attr0", "attr1", "attr2", "zzz", "", ""])
    if reg.v2:
        if rng.random() < 0.1:
            out["pol/before.rego"] = POLICY_B2 % {"suffix": suf}
        out["pol/after.rego"] = POLICY_V2 % {"suffix": suf}
    else:
        if rng.random() < 0.85:
            out["pol/before.rego"] = POLICY_V1 % {"stage": "before_resolution", "coll": "input.groups", "suffix": suf}
        out["pol/after.rego"] = POLICY_V1 % {"stage": "after_resolution", "coll": "input.groups", "suffix": suf}
    if rng.random() < 0.6:
        # compared with the baseline, where there is one
        x = [("input.registry.%s", "data.registry.%s", n, k) for n, k in (("metrics", "name"), ("events", "name"), ("attributes", "key"))] if reg.v2 else [
            ("input.%s", "data.%s", "groups", "id")]
        out["pol/comp.rego"] = "package comparison_after_resolution\n\nimport rego.v1\n" + "".join(POLICY_CMP % {"new": a % n, "old": b % n, "id": k, "n": n} for a, b, n, k in x)
    return out


def gen_pair(rng, v2):
    """Baseline and head versions of one registry: -> files with dirs base/ and reg/."""
    files, reg, info = gen(rng, v2=v2, dep=0)
    head = {p: (json.loads(t) if t.lstrip().startswith("{") else t) for p, t in files.items()}
    base = json.loads(json.dumps(head))

    def prune(docs, prob):
        for p, d in docs.items():
            if not isinstance(d, dict) or p.endswith("manifest.yaml"):
                continue
            for k in list(d):
                if not isinstance(d[k], list):
                    continue
                keep = []
                for g in d[k]:
                    sig = k in ("metrics", "events", "spans", "entities") or (k == "groups" and g.get("type") in ("metric", "event", "span", "entity"))
                    refd = k in ("metrics", "spans") and v2
                    if sig and not refd and not g.get("id", "").startswith("span.") and rng.random() < prob:
                        continue
                    keep.append(g)
                d[k] = keep
                if not keep and k != "groups":
                    del d[k]
    prune(base, 0.3)
    prune(head, 0.3)
    names = {"metrics": reg.metrics, "events": reg.events}
    for d in head.values():
        if not isinstance(d, dict):
            continue
        for k in ("groups", "metrics", "events", "attributes"):
            for g in d.get(k, []) if isinstance(d.get(k), list) else []:
                tgt = [g] + (g.get("attributes", []) if g.get("id", "").startswith("registry.") else [])
                for x in tgt:
                    if x.get("type") in ("attribute_group", "span", "entity") or "ref" in x:
                        continue
                    if rng.random() < 0.3:
                        pool = reg.metrics if "instrument" in x else reg.events if (x.get("type") == "event" or k == "events") else reg.attrs
                        x["deprecated"] = rng.choice([{"reason": "renamed", "renamed_to": rng.choice(pool)}, {"reason": "obsoleted", "note": "o"},
                                                      {"reason": "uncategorized", "note": "u"}])
    for i in range(rng.randrange(0, 3)):
        p = rng.choice(sorted(p for p in head if isinstance(head[p], dict) and not p.endswith("manifest.yaml")))
        if v2:
            head[p].setdefault("events", []).append({"name": "app.new%d" % i, "brief": "b", "stability": "stable"})
        else:
            head[p].setdefault("groups", []).append({"id": "event.app.new%d" % i, "type": "event", "name": "app.new%d" % i, "brief": "b",
                                                     "stability": "stable", "attributes": []})
    out = {}
    for p, d in head.items():
        if p.endswith("manifest.yaml"):
            d = dict(d, schema_url="https://app.example.com/schemas/2.0.0")
        out[p] = jd(d) if isinstance(d, dict) else d
    for p, d in base.items():
        out["base" + p[len(reg.dir):]] = jd(d) if isinstance(d, dict) else d
    return out, reg, info


# ------------------------------------------------------------------ templates
MACROS = """{% macro attr_row(a) %}| `{{ a.name | default(a.key) }}` | {{ a.brief | trim }} |
{% endmacro %}"""

T_V1 = {
    "registry.md": ("single", ".", None, "{% import 'lib/macros.j2' as m %}# All\n{% for g in ctx.groups %}## {{ g.id }} {{ g.brief }}\n{% for a in g.attributes %}{{ m.attr_row(a) }}{% endfor %}\n{% endfor %}"),
    "group.md": ("each", ".groups", "groups/{{ ctx.id | kebab_case }}.md", "# {{ ctx.id }}\n{{ ctx.brief | comment }}\n{% for a in ctx.attributes %}- {{ a.name }}: {{ a.requirement_level }}\n{% endfor %}END {{ ctx.id }}\n"),
    "ns.md": ("each", "semconv_grouped_attributes", "ns/{{ ctx.root_namespace | snake_case }}.txt", "ns {{ ctx.root_namespace }}\n{% for a in ctx.attributes %}{{ a.name | pascal_case }} {{ a.type | instantiated_type if a.type is not mapping else 'enum' }}\n{% endfor %}"),
    "metrics.md": ("single", "semconv_grouped_metrics", "metrics.md", "{% for n in ctx %}{{ n.root_namespace }}: {% for x in n.metrics %}{{ x.metric_name }} {% endfor %}\n{% endfor %}"),
    "setname.md": ("each", ".groups | map(select(.type == \"metric\"))", None, "{%- set f = ctx.metric_name | replace('.', '/') -%}{{ template.set_file_name('m/' ~ f ~ '.h') }}metric {{ ctx.metric_name }} {{ ctx.unit }} {{ params.p1 }}\n"),
    "sub/deep.md": ("each", ".groups | map(select(.type == \"span\"))", "spans/{{ ctx.id }}.md", "span {{ ctx.id }} {{ ctx.span_kind }}\n{{ ctx.attributes | default([]) | length }}\n"),
    "bytype.md": ("single", ".groups | group_by(.type) | map({t: .[0].type, n: length})", "bytype.md", "{% for x in ctx %}{{ x.t }}={{ x.n }}\n{% endfor %}"),
}
CONF = "p {{ params.p1 }} {{ params.p2 | default('none') }} {{ 'api' | map_text('m', 'dflt') }} {{ 'my API http id' | title_case }} {{ ctx | length }}\n"
T_V1["conf.md"] = ("single", ".", "conf/all.txt", CONF)
SOME = ".groups | .[0:($p1 | tostring | length)]"
T_V1["parm2.md"] = ("single", SOME, "parm2.md", "{% for g in ctx %}{{ g.id }}\n{% endfor %}{{ params | tojson }}\n")
T_V1["param.md"] = ("each", SOME, "conf/{{ params.p1 }}/{{ ctx.id }}.txt", "{{ params | tojson }}\n")
T_V2 = {
    "registry.md": ("single", ".", None, "{% import 'lib/macros.j2' as m %}# All\n{% for a in ctx.registry.attributes %}{{ m.attr_row(a) }}{% endfor %}{% for s in ctx.registry.spans %}{{ s.type }}\n{% endfor %}"),
    "attr.md": ("each", ".registry.attributes", "attrs/{{ ctx.key | kebab_case }}.md", "# {{ ctx.key }}\n{{ ctx.brief | comment }}\nEND {{ ctx.key }}\n"),
    "ns.md": ("each", "semconv_grouped_attributes({\"v2\": true})", "ns/{{ ctx.root_namespace | snake_case }}.txt", "ns {{ ctx.root_namespace }}\n{% for a in ctx.attributes %}{{ a.key | pascal_case }}\n{% endfor %}"),
    "metrics.md": ("each", ".registry.metrics", "m/{{ ctx.name }}.h", "metric {{ ctx.name }} {{ ctx.unit }} {{ params.p1 }}\n{% for a in ctx.attributes %}{{ a.key }}\n{% endfor %}"),
    "setname.md": ("each", ".registry.events", None, "{{ template.set_file_name('e/' ~ ctx.name ~ '.h') }}event {{ ctx.name }}\n"),
    "refs.md": ("single", ".refinements", "refs.md", "{% for s in ctx.spans %}{{ s.id }} {% endfor %}\n{% for s in ctx.metrics %}{{ s.id }} {% endfor %}\n"),
}


T_V2["conf.md"] = T_V1["conf.md"]
T_V1["big.md"] = T_V2["big.md"] = ("single", "[paths | map(tostring) | join(\"/\")] | sort", "big.txt", "{% for p in ctx %}{{ loop.index }} {{ p }}\n{% endfor %}")
T_V2["param.md"] = ("single", ".registry.attributes | .[0:($p1 | tostring | length)]", "parm.md", "{% for a in ctx %}{{ a.key }}\n{% endfor %}{{ params | tojson }}\n")
T_V2["parm2.md"] = ("each", T_V2["param.md"][1], "conf/{{ params.p1 }}/{{ ctx.key }}.txt", "{{ params | tojson }}\n")


def templates(rng, v2, broken=False):
    """-> (files under templates/tgt, chosen names)"""
    pool = T_V2 if v2 else T_V1
    names = sorted(rng.sample(sorted(pool), rng.randrange(2, len(pool) + 1)))
    files = {"templates/tgt/lib/macros.j2": MACROS}
    tl = []
    for n in names:
        mode, flt, fname, body = pool[n]
        t = {"template": n + ".j2", "filter": flt, "application_mode": mode}
        if fname:
            t["file_name"] = fname
        if rng.random() < (0.5 if n.startswith("par") else 0.2):
            t["params"] = {rng.choice(["p1", "p2"]): rng.choice(["own", 7, True])}
        if rng.random() < 0.15:
            t["when"] = rng.choice(["$p1 != \"zz\"", "true", "$params.p1 == \"a\"", ". | length > 0"])
        if rng.random() < 0.1:
            t["auto_escape"] = rng.choice(["html", "none"])
        files["templates/tgt/%s.j2" % n] = body
        tl.append(t)
    if broken:
        for i in range(rng.randrange(1, 4)):
            n = "broken%d.md.j2" % i
            files["templates/tgt/" + n] = rng.choice(["{{ ctx.x.y.z }}", "{{ 1 | nosuchfilter }}", "{% for %}", "{{ nofunc(3) }}"])
            tl.append({"template": n, "filter": rng.choice([".", ".groups" if not v2 else ".registry.attributes"]), "application_mode": rng.choice(["single", "each"]),
                       "file_name": "broken/%d.txt" % i})
    cfg = {"templates": tl, "params": {"p1": "v%d" % rng.randrange(9)}, "comment_formats": {"c": {"format": "markdown", "header": "/*", "prefix": " * ", "footer": " */"}},
           "default_comment_format": "c", "acronyms": ["API", "HTTP"], "text_maps": {"m": {"api": "tgt"}}}
    files["templates/tgt/weaver.yaml"] = jd(cfg)
    return files, names
