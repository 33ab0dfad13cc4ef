# needs: a registry with several files that load with warnings, and files that are parsed in parallel and finish in another order
# breaks: the order of the warnings changes from run to run
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    n = 10
    for i in range(n):
        at = [{"key": "a%d.k%d" % (i, k), "type": "string", "brief": "b", "stability": "stable", "examples": ["x"]} for k in range(400 if i % 3 == 0 else 2)]
        sc.put("reg/f%02d.yaml" % i, json.dumps({"file_format": "definition/2", "attributes": at}))
    seen = set()
    for i in range(25):
        rc, o, e = sc.run("registry", "check", "-r", "reg", "--v2", env={"RAYON_NUM_THREADS": "8"})
        t = o + e
        pos = [t.find("f%02d.yaml" % k) for k in range(n)]
        if rc or min(pos) < 0:
            wd.fail("exit %s %s" % (rc, t[-900:]))
        seen.add(tuple(sorted(range(n), key=lambda k: pos[k])))
    if len(seen) > 1:
        wd.fail("the warnings come in %d different orders in 25 runs" % len(seen))
    print("ok")
