# needs: the same finding twice in a row
# breaks: the second one is in the report but isn't emitted
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
class C(wd.Collector):
    n = 0
    def kind(self, b):
        C.n += b.count(b"weaver.finding.id")
        return "logs"
with wd.Scratch() as sc:
    col = C()
    sc.put("in.txt", "app.uid=3\n" * 3 + "other\n" * 2)
    rc, o, e = sc.run("registry", "live-check", "-r", "reg", "--input-source", "in.txt", "--input-format", "text", "--format", "json", "--no-stream", "--fail-on", "none",
                      "--emit-otlp-logs", "--otlp-logs-endpoint", "http://127.0.0.1:%d" % col.port)
    col.close()
    want = sum(len((s["attribute"].get("live_check_result") or {}).get("all_advice", [])) for s in json.loads(o[o.index("{"):o.rindex("}") + 1])["samples"])
    if rc or want < 5 or C.n != want:
        wd.fail("exit %s, %d findings in the report, %d emitted %s" % (rc, want, C.n, e[-300:]))
    print("ok", want)
