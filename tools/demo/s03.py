# needs: a /stop client that reads a large report slowly
# breaks: the process exits before the report is written out, so the client gets a truncated answer
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    r = wd.Receiver(sc, "--format", "json", "--output", "http")
    try:
        c = wd.Grpc(r.grpc)
        for i in range(18):
            assert c.export("traces", wd.export([wd.span("s%d" % j, [("k%d" % q, "v" * 50) for q in range(40)]) for j in range(10)]))
        st, h, body = wd.http(r.admin, slow=40)
        if st != 200:
            wd.fail("status %s" % st)
        try:
            n = len(json.loads(body)["samples"])
        except ValueError as e:
            wd.fail("truncated report: %d bytes, %s" % (len(body), e))
        if n != 180:
            wd.fail("%d samples" % n)
        print("ok", len(body))
    finally:
        r.kill()
