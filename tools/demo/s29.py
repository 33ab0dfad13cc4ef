# needs: policy violations in more than one file of the registry
# breaks: only some of the violations are reported, other ones on every run
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    n = 60
    for i in range(n):
        sc.put("reg/f%02d.yaml" % i, json.dumps({"groups": [{"id": "registry.g%02d" % i, "type": "attribute_group", "brief": "b", "display_name": "d", "stability": "stable",
               "attributes": [{"id": "a%02d.key" % i, "type": "string", "brief": "b", "stability": "stable", "examples": ["x"]}]}]}))
    sc.put("pol/p.rego", "package before_resolution\n\nimport rego.v1\n\ndeny contains r if {\n\tsome g in input.groups\n\tsome a in g.attributes\n\tendswith(a.id, \".key\")\n"
           "\tr := {\"type\": \"semconv_attribute\", \"id\": \"badname\", \"category\": \"c\", \"attr\": a.id, \"group\": g.id}\n}\n")
    for i in range(5):
        rc, o, e = sc.run("registry", "check", "-r", "reg", "-p", "pol", env={"RAYON_NUM_THREADS": "8"})
        miss = [k for k in range(n) if "a%02d.key" % k not in o + e]
        if rc == 0 or miss:
            wd.fail("exit %s, %d of %d violations are missing %s" % (rc, len(miss), n, (o + e)[-300:]))
    print("ok")
