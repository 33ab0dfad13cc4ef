# needs: a collector that accepts spans and logs but fails while the metrics are exported
# breaks: emit exits 0 although no metric reached the collector
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    g = [{"id": "metric.app.m", "type": "metric", "metric_name": "app.m", "instrument": "counter", "unit": "1", "brief": "b", "stability": "stable"},
         {"id": "event.app.e", "type": "event", "name": "app.e", "brief": "b", "stability": "stable"}]
    sc.put("reg/m.yaml", json.dumps({"groups": g}))
    for bad in ((), ("metrics",), ("logs",), ("traces",)):
        c = wd.Collector(bad)
        try:
            rc, o, e = sc.run("registry", "emit", "-r", "reg", "--skip-policies", "--endpoint", "http://127.0.0.1:%d" % c.port, timeout=100)
        finally:
            c.close()
        print(bad, rc, sorted(c.seen))
        if (rc == 0) != (not bad):
            wd.fail("collector rejects %s: exit %s, seen %s\n%s" % (bad, rc, sorted(c.seen), (o + e)[-500:]))
