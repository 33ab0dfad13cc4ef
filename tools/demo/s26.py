# needs: two templates with the same filter but other parameters
# breaks: one of them is rendered with what the filter selects for the other, whichever comes first
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    for k in ("one", "two"):
        sc.put("reg/%s.yaml" % k, json.dumps({"groups": [{"id": "span.app.%s" % k, "type": "span", "span_kind": "client", "brief": "b", "stability": "stable", "attributes": [{"ref": "app.uid"}]}]}))
    t = [{"template": "%s.txt.j2" % k, "filter": ".groups | map(select(.id == $which) | .id)", "application_mode": "single", "params": {"which": "span.app." + k}} for k in ("one", "two")]
    sc.put("templates/tgt/weaver.yaml", json.dumps({"templates": t}))
    for k in ("one", "two"):
        sc.put("templates/tgt/%s.txt.j2" % k, "{{ ctx | tojson }}")
    rc, o, e = sc.run("registry", "generate", "-r", "reg", "-t", "templates", "--skip-policies", "tgt", "out", env={"RAYON_NUM_THREADS": "1"})
    got = [sc.get("out/%s.txt" % k).decode() for k in ("one", "two")] if not rc else None
    if got != ['["span.app.one"]', '["span.app.two"]']:
        wd.fail("exit %s %s %s" % (rc, got, (o + e)[-300:]))
    print("ok")
