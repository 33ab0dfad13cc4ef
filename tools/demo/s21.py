# needs: a filter requested by a second client while the first one's is still being computed, after another filter (or one that fails)
# breaks: the second client receives the result of an earlier, different filter
import json, subprocess, sys, threading, time, urllib.parse, urllib.request
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    port = wd.port()
    p = subprocess.Popen([wd.WEAVER, "serve", "-r", "reg", "--bind", "127.0.0.1:%d" % port], cwd=sc.dir, env=sc.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def get(f):
        with urllib.request.urlopen("http://127.0.0.1:%d/api/v1/registry/filter?filter=%s" % (port, urllib.parse.quote(f)), timeout=120) as r:
            return json.loads(r.read())
    try:
        for _ in range(200):
            try:
                get("1")
                break
            except OSError:
                time.sleep(0.1)
        slow = "[range(%d)] | map(. * 2) | length"
        n = 20000
        while True:
            t = time.time()
            want = get(slow % n)
            if time.time() - t > 1 or n > 10**7:
                break
            n *= 3
        get("1")
        res = []
        ts = [threading.Thread(target=lambda: res.append(get(slow % n))) for _ in range(2)]
        ts[0].start()
        time.sleep(0.4)
        ts[1].start()
        for x in ts:
            x.join()
    finally:
        p.kill()
        p.wait()
    if res != [want, want]:
        wd.fail("%s instead of %s" % (res, [want, want]))
    print("ok", n)
