# needs: a request less than a second after another one, and then a pause a little shorter than the timeout
# breaks: the second request doesn't count as activity, so the receiver stops before the timeout
import sys, time
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    r = wd.Receiver(sc, "--format", "json", inactivity=4)
    try:
        c = wd.Grpc(r.grpc)
        t0 = time.time()
        for i, t in enumerate((3.55, 4.35, 8.2)):
            time.sleep(max(0, t0 + t - time.time()))
            try:
                ok = c.export("traces", wd.export([wd.span("s%d" % i)]), 5)
            except OSError as e:
                ok = None
            if not ok:
                wd.fail("the receiver stopped less than 3.9 s after the last request, timeout 4 s")
        if r.wait(30) is None:
            wd.fail("no stop")
        print("ok")
    finally:
        r.kill()
