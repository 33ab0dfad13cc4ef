"""Seeded command workloads shared by the file-system fault properties."""
import json

from . import core, reggen
from .props import c01, c02

MD = "# Title %(i)d\n\nHand written intro %(i)d.\n\n"


def markdown(rng, reg, i, v2=False, bad=None):
    """A hand-written markdown file with weaver-managed sections."""
    if v2:
        ids = ["registry.metrics." + m for m in reg.metrics[:2]] + ["registry.events." + e for e in reg.events[:2]] + ["registry.attributes." + a for a in reg.attrs[:2]]
    else:
        ids = ["span.%s.span0" % reg.pfx, "metric.%s.metric0" % reg.pfx, "event.%s.event0" % reg.pfx]
    t = "# Title %d\n\nHand written intro %d, ünïcode.\n\n" % (i, rng.randrange(1000))
    n = rng.randrange(0, 4)
    for k in range(n):
        gid = rng.choice(ids)
        body = rng.choice(["", "stale content %d\n" % rng.randrange(100), "| old | table |\n|---|---|\n", "old <!-- comment -->\n"])
        if v2 and rng.random() < 0.5:
            head, tail = "weaver %s.registry.metrics" % rng.choice(["", "template:list.md.j2 "]), "endweaver"
        else:
            head, tail = "semconv %s%s" % (gid, rng.choice(["", "", "(full)"])), "endsemconv"
        if bad == "unknown" and k == n - 1:
            head, tail = "semconv %smetrics.no.such.thing" % ("registry." if v2 else ""), "endsemconv"
        end = "" if bad == "unterminated" and k == n - 1 else "<!-- %s -->\n" % tail
        t += "## Section %d\n\n<!-- %s -->\n%s%s\nHand written text %d.\n%s\n" % (k, head, body, end, rng.randrange(1000), "filler line of prose\n" * rng.choice([0, 0, 3, 400]))
    t += rng.choice(["The end.\n", "The end without newline", "\n\n", "<!-- a comment -->\n"])
    if rng.random() < 0.1:
        t = t.replace("\n", "\r\n")
    return t, bad if n else None


def md_workload(rng, bad=0.0):
    v2 = rng.random() < 0.35
    files, reg, info = reggen.gen(rng, v2=v2, size=0.6)
    broken = {}
    for i in range(rng.randrange(1, 5)):
        p = "docs/%sf%d.md" % (rng.choice(["", "sub/", "sub/x/"]), i)
        t, b = markdown(rng, reg, i, v2, rng.choice(["unterminated", "unknown"]) if rng.random() < bad else None)
        files[p] = t
        if b:
            broken[p] = b
    files["docs/other.txt"] = "not markdown <!-- semconv span.app.span0 -->\n<!-- endsemconv -->\n"
    # files that are not markdown, whatever their names contain
    for n in ("f0.md.orig", "notes.mdx", "a.md.txt", "md", "x.md.d/inner.txt"):
        if rng.random() < 0.3:
            files["docs/" + n] = markdown(rng, reg, 9, v2)[0]
    body = "{% for a in group.attributes %}| `{{ a.name | default(a.key) }}` | {{ a.brief | trim }} |\n{% endfor %}"
    files["templates/markdown/snippet.md.j2"] = "| Attribute | Brief |\n|---|---|\n" + (body if not v2 else "{% if group is defined %}" + body + "{% endif %}")
    files["templates/markdown/list.md.j2"] = "listed\n"
    files["templates/markdown/weaver.yaml"] = json.dumps({"templates": [{"template": "snippet.md.j2", "filter": ".", "application_mode": "each"}]})
    argv = ["registry", "update-markdown", "-r", "reg", "-t", "templates", "--target", "markdown", "docs"]
    dry = rng.random() < 0.3
    if dry:
        argv.insert(2, "--dry-run")
    if v2:
        argv += ["--v2"]
    return files, argv, {"cmd": "update-markdown", "fmt": "dry" if dry else "-", "v2": v2, "deps": info["deps"], "error": None,
                         "argv": " ".join(argv), "inputs": [], "broken": broken, "dry": dry}


def livecheck_files(rng):
    files, reg, info = reggen.gen(rng, v2=None, size=0.7, dep=0)
    samples = []
    for i in range(rng.randrange(1, 6)):
        a = {"name": rng.choice(reg.attrs + ["un.known%d" % i]), "value": rng.choice(["x", 3, True])}
        samples.append(rng.choice([{"attribute": a}, {"span": {"name": "s%d" % i, "kind": "client", "attributes": [a]}}]))
    files["in.json"] = json.dumps(samples)
    files["adv/extra.rego"] = ("package live_check_advice\n\nimport rego.v1\n\ndeny contains r if {\n\tx := input.sample.attribute\n\tcontains(x.name, \"attr\")\n"
                               "\tr := {\"type\": \"advice\", \"advice_type\": \"extra\", \"advice_level\": \"improvement\", \"advice_context\": {\"a\": x.name}, \"message\": \"extra\"}\n}\n")
    text = rng.random() < 0.3
    if text:
        lines = [rng.choice(reg.attrs + ["un.known%d" % i]) + rng.choice(["", "=x", "=3", "=true", "=[1,2]"]) for i in range(rng.choice([3, 10, 600]))]
        files["in.txt"] = "\n".join(lines) + rng.choice(["", "\n"])
        del files["in.json"]
    argv = ["registry", "live-check", "-r", "reg", "--input-source", "in.txt" if text else "in.json", "--input-format", "text" if text else "json", "--format", "json"]
    if rng.random() < 0.5:
        argv += ["--output", "out"]
    if rng.random() < 0.5:
        argv += ["--advice-policies", "adv"]
    if info["v2"]:
        argv += ["--v2"]
    return lc_decorate(rng, files, argv, {"cmd": "live-check", "fmt": "file", "v2": info["v2"], "deps": 0, "error": None, "argv": " ".join(argv)})


def misc(rng):
    k = rng.choice(["json-schema", "completion", "init"])
    if k == "json-schema":
        argv = ["registry", "json-schema"] + (["-o", "out.json"] if rng.random() < 0.7 else [])
    elif k == "completion":
        argv = ["completion", rng.choice(["bash", "zsh", "fish"])] + (["--completion-file", "out.txt"] if rng.random() < 0.7 else [])
    else:
        argv = ["diagnostic", "init", "-t", "out"]
    return {}, argv, {"cmd": k, "fmt": "-", "v2": False, "deps": 0, "error": None, "argv": " ".join(argv)}


def any_cmd(rng, write=False):
    r = rng.random()
    if r < 0.45:
        while True:
            w = c01.workload(rng)
            if not write or "-o" in w[1] or w[2]["cmd"] == "package" or rng.random() < 0.2:
                return w
    if r < 0.70:
        w = c02.workload(rng) if rng.random() < 0.8 else c02.console(rng)
        w[2]["groups"] = []
        return w
    if r < 0.85:
        return md_workload(rng)
    if r < 0.92 or not write:
        return livecheck_files(rng)
    return misc(rng)


# ------------------------------------------------------------------ archives and project config
def pack(rng, files, prefix, kind, sub=None):
    """The files under prefix/ as the bytes of a .zip or .tar.gz with a top-level folder."""
    import io
    import tarfile
    import zipfile
    members = {}
    for p, t in files.items():
        if p.startswith(prefix + "/"):
            members["top/" + (sub + "/" if sub else "") + p[len(prefix) + 1:]] = t.encode()
    members["top/README.md"] = b"readme\n"
    buf = io.BytesIO()
    names = sorted(members)
    rng.shuffle(names)
    if kind == "zip":
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            for n in names:
                z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), members[n], rng.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED]))
    else:
        import gzip
        raw = io.BytesIO()
        with tarfile.open(fileobj=raw, mode="w", format=tarfile.USTAR_FORMAT) as t:
            for n in names:
                ti = tarfile.TarInfo(n)
                ti.size = len(members[n])
                ti.mtime = 1577836800
                t.addfile(ti, io.BytesIO(members[n]))
        buf.write(gzip.compress(raw.getvalue(), 6, mtime=0))
    return buf.getvalue()


def archived(rng, files, argv, meta):
    """Turn the local registry folder of a workload into a local archive."""
    if "reg" not in argv or meta["cmd"] in ("diff", "checkbase"):
        return files, argv, meta
    kind = rng.choice(["zip", "tar.gz"])
    sub = rng.choice([None, "model"])
    data = pack(rng, files, "reg", kind, sub)
    files = {p: t for p, t in files.items() if not p.startswith("reg/")}
    import base64
    files["reg." + kind] = {"b64": base64.b64encode(data).decode()}
    argv = [("reg.%s%s" % (kind, "[%s]" % sub if sub else "")) if a == "reg" else a for a in argv]
    return files, argv, dict(meta, archive=kind, argv=" ".join(argv))


def with_config(rng, files, argv, meta):
    """Move some options of the command line to a .weaver.toml."""
    argv = list(argv)
    toml = ""
    if "-r" in argv and rng.random() < 0.7:
        i = argv.index("-r")
        toml += "[registry]\npath = %s\n" % json.dumps(argv[i + 1])
        del argv[i:i + 2]
    if "-p" in argv:
        i = argv.index("-p")
        toml += "[policy]\npaths = [%s]\n" % json.dumps(argv[i + 1])
        del argv[i:i + 2]
    files = dict(files)
    if ".weaver.toml" in files and toml:
        toml = toml + files[".weaver.toml"]
    for o, k in (("--follow-symlinks", "follow_symlinks"), ("--include-unreferenced", "include_unreferenced"), ("--v2", "v2")):
        if o in argv and "[registry]\n" in toml and rng.random() < 0.5:
            argv.remove(o)
            toml = toml.replace("[registry]\n", "[registry]\n%s = true\n" % k)
    name = ".weaver.toml" if rng.random() < 0.8 or meta["cmd"] == "generate" or ".weaver.toml" in files else "conf/cfg.toml"
    if name != ".weaver.toml":
        argv += ["--config", name]
    files[name] = toml or files.get(name, "")
    return files, argv, dict(meta, config=True, argv=" ".join(argv))


def fs_cmd(rng, write=False):
    w = any_cmd(rng, write)
    dep = any(p.startswith("dep") for p in w[0])
    if rng.random() < 0.25 and not dep:
        w = archived(rng, *w)
    if rng.random() < 0.5:
        w = decorate(rng, *w)
    if rng.random() < 0.2:
        w = with_config(rng, *w)
    if wants_publish(rng, w[2], w[0]):
        w[2]["publish"] = 1
    return w


# ------------------------------------------------------------------ less common inputs and options
def decorate(rng, files, argv, meta, n=None):
    """Add optional inputs and options to a command: configuration layers, symbolic links, parameter files, own diagnostic templates..."""
    files, argv, meta = dict(files), list(argv), dict(meta)
    cmd = {"checkbase": "check"}.get(meta["cmd"], meta["cmd"])
    reg = argv[argv.index("-r") + 1] if "-r" in argv else None
    does = []

    def opt(name, *a):
        does.append(name)
        argv[2:2] = list(a)

    if reg == "reg" and rng.random() < 0.15:
        movable = sorted(p for p, t in files.items() if p.startswith("reg/") and p.endswith(".yaml") and "manifest" not in p and isinstance(t, str))
        if movable:
            how = rng.choice(["file", "dir"])
            for p in rng.sample(movable, min(len(movable), 2)):
                files["ext/" + p.split("/")[-1]] = files.pop(p)
                if how == "file":
                    files["reg/l_" + p.split("/")[-1]] = {"link": "../ext/" + p.split("/")[-1]}
            if how == "dir":
                files["reg/linked"] = {"link": "../ext"}
            opt("links", "--follow-symlinks")
    if meta.get("deps") and rng.random() < 0.2 and cmd not in ("json-schema", "completion", "init"):
        opt("unreferenced", "--include-unreferenced")
    if cmd == "generate":
        if rng.random() < 0.25:
            files["par.yaml"] = "p1: %s\np2: [1, two]\n" % rng.choice(["a", "file", "3"])
            opt("params", "--params", "par.yaml")
        x = rng.random()
        layer = lambda i: json.dumps({"params": {"p%d" % rng.randrange(1, 4): "layer%d" % i}, "acronyms": ["My", "ID"][:i % 3], "text_maps": {"m": {"api": "layer%d" % i}}})
        if x < 0.12:
            files["extra.yaml"] = layer(1)
            opt("configs", "-c", "templates/tgt/weaver.yaml", "-c", "extra.yaml")
        elif x < 0.35:
            if rng.random() < 0.6:
                files["~/.weaver/weaver.yaml"] = layer(2)
                does.append("home")
            if rng.random() < 0.6:
                files["templates/weaver.yaml"] = layer(3)
                does.append("parent")
            if rng.random() < 0.3:
                files["weaver.yaml"] = layer(4)
        if ".weaver.toml" not in files and rng.random() < 0.15:
            files[".weaver.toml"] = '[template]\nacronyms = ["HTTP", "My"]\n[template.text_maps.m]\napi = "project"\n'
            does.append("project")
    if cmd in ("check", "resolve", "generate", "package", "stats", "diff") and meta.get("error") and "--diagnostic-format" not in argv and rng.random() < 0.3:
        files["dt/mine/weaver.yaml"] = json.dumps({"templates": [{"template": "d.txt.j2", "filter": rng.choice([".", "map(tostring) | sort"]), "application_mode": "single"}]})
        files["dt/mine/d.txt.j2"] = "{% for d in ctx %}DIAG {{ d | tojson }}\n{% endfor %}END\n"
        opt("diagtemplates", "--diagnostic-template", "dt", "--diagnostic-format", "mine")
    if cmd == "resolve" and "-p" not in argv and rng.random() < 0.2:
        files["polr/p.rego"] = ("package after_resolution\n\nimport rego.v1\n\ndeny contains r if {\n\tfalse\n\tr := {\"type\": \"semconv_attribute\", \"id\": \"x\", \"category\": \"c\", "
                                "\"attr\": \"a\", \"group\": \"g\"}\n}\n")
        opt("policy", "-p", "polr")
    meta["argv"] = " ".join(argv)
    meta["extra"] = meta.get("extra", []) + does
    return files, argv, meta


def lc_decorate(rng, files, argv, meta):
    """The optional inputs of live-check from files."""
    files, argv, meta = dict(files), list(argv), dict(meta)
    does = []
    if rng.random() < 0.4:
        docs = {"known.json": json.dumps({"names": ["un.known1", "app"], "n": rng.randrange(9)}), "sub/limits.yaml": "max: %d\nlist:\n  - a\n" % rng.randrange(1, 9),
                "skip.txt": "not data\n", "sub/more.yml": "m: 1\n"}
        for p in rng.sample(sorted(docs), rng.randrange(1, 5)):
            files["dat/" + p] = docs[p]
        files["adv/data.rego"] = ("package live_check_advice\n\nimport rego.v1\n\ndeny contains r if {\n\tx := input.sample.attribute\n"
                                  "\tr := {\"type\": \"advice\", \"advice_type\": \"from_data\", \"advice_level\": \"information\", "
                                  "\"advice_context\": {\"k\": object.get(data, \"known\", \"-\"), \"s\": object.get(data, [\"sub\", \"limits\", \"max\"], \"-\"), "
                                  "\"m\": object.get(data, [\"sub\", \"more\"], \"-\"), \"p\": object.get(data, \"pre\", \"-\")}, \"message\": x.name}\n}\n")
        if "--advice-policies" not in argv:
            argv += ["--advice-policies", "adv"]
        argv += ["--advice-data", rng.choice(["dat", "dat", "dat/**/*.yaml", "dat/*.json", "dat/**/*"] + (["dat/known.json"] if "dat/known.json" in files else []))]
        does.append("data")
    if rng.random() < 0.3:
        files["pre.jq"] = rng.choice(["{pre: (. | keys)}", "{pre: ([paths] | length)}", ". + {pre: \"x\"}"])
        argv += ["--advice-preprocessor", "pre.jq"]
        does.append("preprocessor")
    if rng.random() < 0.4:
        f = rng.choice(["yaml", "jsonl", "ansi", "mine"])
        argv[argv.index("--format") + 1] = f
        if f == "mine":
            files["tpl/mine/weaver.yaml"] = json.dumps({"templates": [{"template": "a.txt.j2", "filter": ".", "application_mode": "single"},
                                                                     {"template": "b.txt.j2", "filter": ".", "application_mode": "single", "file_name": "b.txt"}]})
            files["tpl/mine/a.txt.j2"] = "{% include 'inc.txt' %}A {{ ctx | tojson | length > 2 }}\n"
            files["tpl/mine/inc.txt"] = "included "
            files["tpl/mine/b.txt.j2"] = "B {{ ctx | tojson }}\n"
            argv += ["--templates", "tpl"]
        does.append(f)
    if rng.random() < 0.3:
        argv += ["--no-stream"]
    if rng.random() < 0.3:
        argv += ["--no-stats"]
    if rng.random() < 0.3:
        argv += ["--fail-on", rng.choice(["none", "improvement", "information"])]
    if rng.random() < 0.25:
        files[rng.choice([".weaver.toml"])] = ('[live-check]\nno_stats = %s\n[[live-check.finding_filters]]\nexclude = ["missing_attribute"]\nsample_names = ["un.*"]\n'
                                               '[[live-check.finding_level_overrides]]\nids = ["extra"]\nlevel = "violation"\n' % rng.choice(["true", "false"]))
        does.append("toml")
    meta["argv"] = " ".join(argv)
    meta["extra"] = meta.get("extra", []) + does
    return files, argv, meta


def publish(prop, slot, case):
    """Replace the first dependency of the case by the package weaver makes of it."""
    sc = case["sc"]
    if not case["meta"].pop("publish", None):
        return
    r = prop.ref(slot, "publish", {"files": sc["files"], "steps": [{"argv": ["registry", "package", "-r", "dep0", "--v2", "-o", "out", "--resolved-registry-uri", "resolved.yaml"],
                                                                   "plan": core.calm()}]})[0]
    if r.rc != 0:
        return
    sc["files"] = {p: t for p, t in sc["files"].items() if not p.startswith("dep0/")}
    for n in ("manifest.yaml", "resolved.yaml"):
        sc["files"]["dep0/" + n] = r.files["out/" + n].decode()
    case["meta"]["extra"] = case["meta"].get("extra", []) + ["published"]


def wants_publish(rng, meta, files):
    return bool(meta.get("v2")) and meta.get("deps", 0) >= 1 and any(p.startswith("dep0/") for p in files) and not meta.get("error") and rng.random() < 0.25
