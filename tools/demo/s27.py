# needs: a request with a scope that has a name, followed by one that has none
# breaks: the telemetry of the second is attributed to the scope of the first
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    r = wd.Receiver(sc, "--format", "json", "--no-stream")
    try:
        c = wd.Grpc(r.grpc)
        msg = wd.fl(1, wd.fl(2, wd.fl(1, wd.fl(1, "lib")) + wd.fl(2, wd.span("one"))) + wd.fl(2, wd.fl(2, wd.span("two"))))
        if not c.export("traces", msg, 5):
            wd.fail("refused")
        wd.http(r.admin)
        r.wait(60)
        d = json.loads(sc.get("out.txt"))
        got = [list(s)[0] for s in d["samples"]]
        if got != ["instrumentation_scope", "span", "span"]:
            wd.fail(str(got))
        print("ok")
    finally:
        r.kill()
