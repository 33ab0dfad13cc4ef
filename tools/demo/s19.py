# needs: a writer whose piece of the JSON array happens to end after a nested ']' while more is to come
# breaks: live-check of piped JSON fails, depending on how the bytes are split
import json, subprocess, sys, time
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    one = json.dumps({"span": {"name": "s", "kind": "client", "attributes": [{"name": "app.uid", "value": ["a"]}]}})
    data = "[" + one + "," + one + "]"
    cut = data.index("]") + 1
    res = []
    for parts in ([data], [data[:cut], data[cut:]]):
        p = subprocess.Popen([wd.WEAVER, "registry", "live-check", "-r", "reg", "--input-source", "stdin", "--input-format", "json", "--format", "json", "--no-stream"],
                             cwd=sc.dir, env=sc.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            time.sleep(1)
            for x in parts:
                p.stdin.write(x.encode())
                p.stdin.flush()
                time.sleep(1)
        except BrokenPipeError:
            pass
        try:
            o, e = p.communicate(timeout=60)
        except BrokenPipeError:
            o, e = p.stdout.read(), p.stderr.read()
        try:
            n = len(json.loads(o)["samples"])
        except ValueError:
            n = None
        res.append((p.wait(), n))
    if res[0] != res[1]:
        wd.fail("one write: %s, two writes: %s" % tuple(res))
    print("ok", res)
