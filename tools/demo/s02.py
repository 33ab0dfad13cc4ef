# needs: a SIGHUP while the channel between receiver and checker is full
# breaks: the stop signal is discarded when the channel is full, so the receiver never ends
import sys, signal, time, os
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    rd, wr = os.pipe()
    r = wd.Receiver(sc, "--format", "json", stdout=os.fdopen(wr, "wb"))
    r.out.close()
    try:
        # standard output is not read, so the checker stalls while the receiver goes on
        cs = [wd.Grpc(r.grpc) for _ in range(4)]
        for i in range(400):
            cs[i % 4].send("traces", wd.export([wd.span("s%d" % i, [("app.uid", "v" * 200)])]))
        time.sleep(3)
        r.sig(signal.SIGHUP)
        time.sleep(1)
        import threading
        def drain():
            while os.read(rd, 65536):
                pass
        threading.Thread(target=drain, daemon=True).start()
        if r.wait(20) is None:
            wd.fail("the receiver did not stop after SIGHUP")
        print("ok")
    finally:
        r.kill()
