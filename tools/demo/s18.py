# needs: a custom live-check policy that looks at the resource, and the same attribute sent by two resources
# breaks: the verdict of the first resource is reused for the second
import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
POL = """package live_check_advice

import rego.v1

deny contains f if {
    input.sample.attribute
    some a in input.resource.attributes
    a.name == "service.name"
    f := {"type": "advice", "advice_type": "seen", "advice_level": "violation", "advice_context": {}, "message": sprintf("sent by %s", [a.value])}
}
"""
with wd.Scratch() as sc:
    sc.put("pol/p.rego", POL)
    r = wd.Receiver(sc, "--format", "json", "--advice-policies", sc.dir + "/pol")
    try:
        c = wd.Grpc(r.grpc)
        for h in ("first", "second"):
            c.export("traces", wd.export([wd.span("s", [("app.uid", "v")])], res=[("service.name", h)]), 5)
        wd.http(r.admin)
        r.wait(60)
        out = sc.get("out.txt").decode()
        for h in ("first", "second"):
            if '"sent by %s"' % h not in out:
                wd.fail("no finding about the attribute of the %s service" % h)
        print("ok")
    finally:
        r.kill()
