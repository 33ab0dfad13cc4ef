# needs: a metric reported first without, later with a unit
# breaks: the attributes seen before the unit was known are missing from the inferred registry
import glob, json, os, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    r = wd.Receiver(sc, "-o", sc.dir + "/inf", cmd="infer")
    try:
        c = wd.Grpc(r.grpc)
        c.export("metrics", wd.export([wd.gauge("app.m", "", [("app.first", "x")])]), 5)
        c.export("metrics", wd.export([wd.gauge("app.m", "s", [("app.second", "y")])]), 5)
        wd.http(r.admin)
        r.wait(30)
        text = ""
        for d, _, fs in os.walk(sc.dir + "/inf"):
            for f in fs:
                text += open(os.path.join(d, f)).read()
        if "app.second" not in text or "app.first" not in text:
            wd.fail("an attribute of the telemetry is not in the inferred registry:\n" + text)
        print("ok")
    finally:
        r.kill()
