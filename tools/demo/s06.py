# needs: a disk that becomes full while the last, buffered part of the report is written
# breaks: live-check exits 0 although the end of the report file is missing
import json, resource, signal, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    sc.put("in.json", json.dumps([{"attribute": {"name": "app.uid", "value": "x"}}]))
    run = lambda **k: sc.run("registry", "live-check", "-r", "reg", "--input-source", "in.json", "--input-format", "json", "--format", "json", "--output", "out", "--fail-on", "none", **k)
    rc, o, e = run()
    n = len(sc.get("out/live_check.json"))
    if rc or n < 100:
        wd.fail("exit %s, %d bytes %s" % (rc, n, e))
    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n - 20, n - 20))
    rc, o, e = run(pre=limit)
    if rc == 0 and len(sc.get("out/live_check.json")) < n:
        wd.fail("exit 0 but only %d of %d bytes were written" % (len(sc.get("out/live_check.json")), n))
    print("ok", rc)
