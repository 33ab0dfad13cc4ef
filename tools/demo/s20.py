# needs: two searches in a row that differ in their stability filter only
# breaks: the second search is answered with the result of the first
import json, subprocess, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
def rpc(sc, calls):
    p = subprocess.Popen([wd.WEAVER, "registry", "mcp", "-r", "reg"], cwd=sc.dir, env=sc.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    def send(o):
        p.stdin.write(json.dumps(dict(o, jsonrpc="2.0")).encode() + b"\n")
        p.stdin.flush()
    def ask(i, m, pr):
        send({"id": i, "method": m, "params": pr})
        while True:
            l = p.stdout.readline()
            if not l:
                wd.fail("the server ended: " + p.stderr.read().decode()[-500:])
            d = json.loads(l)
            if d.get("id") == i:
                return d
    ask(0, "initialize", {"protocolVersion": "2025-03-26", "capabilities": {}, "clientInfo": {"name": "d", "version": "1"}})
    send({"method": "notifications/initialized"})
    out = [json.loads(ask(i + 1, "tools/call", {"name": "search", "arguments": c})["result"]["content"][0]["text"]) for i, c in enumerate(calls)]
    p.stdin.close()
    p.wait(20)
    return out
with wd.Scratch() as sc:
    a, b = {"query": "app", "limit": 5}, {"query": "app", "limit": 5, "stability": "development"}
    both = rpc(sc, [a, b])
    alone = rpc(sc, [a]) + rpc(sc, [b])
    if both != alone:
        wd.fail("in one session: %s\nalone: %s" % tuple([x["total"] for x in y] for y in (both, alone)))
    print("ok", [x["total"] for x in alone])
