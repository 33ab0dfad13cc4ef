# needs: two instances of one service (same first resource attribute) sending findings to one receiver that emits them as log records
# breaks: the findings of the second instance carry the resource attributes of the first
import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
class C(wd.Collector):
    raw = b""
    def kind(self, b):
        C.raw += b
        return "logs"
with wd.Scratch() as sc:
    col = C()
    r = wd.Receiver(sc, "--format", "json", "--emit-otlp-logs", "--otlp-logs-endpoint", "http://127.0.0.1:%d" % col.port)
    try:
        c = wd.Grpc(r.grpc)
        for h in ("host-one", "host-two"):
            c.export("traces", wd.export([wd.span("s", [("no.such.attribute", "v")])], res=[("service.name", "svc"), ("host.name", h)]), 5)
        wd.http(r.admin)
        r.wait(60)
        for h in (b"host-one", b"host-two"):
            if C.raw.count(h) < 1:
                wd.fail("%s: %d mentions in the emitted findings" % (h, C.raw.count(h)))
        print("ok", C.raw.count(b"host-one"), C.raw.count(b"host-two"))
    finally:
        r.kill()
        col.close()
