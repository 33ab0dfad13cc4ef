# needs: an export request without a single item (SDKs and collectors send them), followed by one with items
# breaks: the session ends at the empty request; what arrives after it is lost
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    r = wd.Receiver(sc, "--format", "json")
    try:
        c = wd.Grpc(r.grpc)
        c.export("traces", wd.export([wd.span("before")]), 5)
        c.export("traces", wd.export([]), 5)
        c.export("traces", wd.export([wd.span("behind")]), 5)
        try:
            wd.http(r.admin)
        except OSError:
            pass
        r.wait(30)
        out = sc.get("out.txt").decode()
        if '"behind"' not in out:
            wd.fail("the span sent after the empty request is not in the report")
        print("ok")
    finally:
        r.kill()
