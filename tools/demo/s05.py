# needs: a template (or several) failing for several objects in different ways, and a process whose hash seed orders the distinct messages differently
# breaks: the diagnostics of a failing generation come in another order on every run
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    g = [{"id": "span.app.s%d" % i, "type": "span", "span_kind": "client", "brief": "b", "stability": "stable"} for i in range(6)]
    sc.put("reg/spans.yaml", json.dumps({"groups": g}))
    sc.put("templates/t/x.md.j2", "{{ template.set_file_name(ctx.id ~ '.md') }}{{ ctx.id | nosuchfilter }}\n")
    tl = []
    for i in range(6):
        sc.put("templates/t/x%d.md.j2" % i, "{{ ctx.groups | no_such_filter%d }}\n" % i)
        tl.append({"template": "x%d.md.j2" % i, "filter": ".", "application_mode": "single"})
    sc.put("templates/t/weaver.yaml", json.dumps({"templates": tl}))
    seen = set()
    for i in range(12):
        rc, o, e = sc.run("registry", "generate", "-r", "reg", "-t", "templates", "t", "out", "--skip-policies", "--diagnostic-format", "json", env={"RAYON_NUM_THREADS": "1"})
        if rc == 0:
            wd.fail("run %d: exit %s\n%s" % (i, rc, (o + e)[-800:]))
        t = o + e
        seen.add(tuple(sorted(range(6), key=lambda k: t.find("no_such_filter%d" % k))))
    if len(seen) > 1:
        wd.fail("the messages come in different orders: %s" % sorted(seen))
    print("ok")
