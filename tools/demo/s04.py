# needs: a client that only sends one kind of telemetry (profiles), less than the timeout apart
# breaks: profile export requests don't count as activity, so the receiver stops while telemetry keeps arriving
import json, sys, time
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    r = wd.Receiver(sc, "--format", "json", inactivity=3)
    try:
        c = wd.Grpc(r.grpc)
        for i in range(16):
            if not c.export("profiles", wd.export([wd.profile("f%d" % i)]), 5):
                wd.fail("the receiver stopped after %d requests sent 0.5 s apart, timeout 3 s" % i)
            time.sleep(0.5)
        if r.wait(30) is None:
            wd.fail("no stop")
        print("ok")
    finally:
        r.kill()
