# needs: more than a hundred export requests in flight while the checker is busy (the channel between receiver and checker is full)
# breaks: requests that find the channel full are acknowledged and dropped, so acknowledged telemetry is missing from the report
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    r = wd.Receiver(sc, "--format", "json", "--output", "http", "--no-stream")
    try:
        cs = [wd.Grpc(r.grpc) for _ in range(4)]
        N = 300
        want, got = set(), []
        for k, c in enumerate(cs):
            sids = {}
            for i in range(N):
                uid = "u%d-%d" % (k, i)
                items = [wd.span("s", [("app.uid", uid)])] + [wd.span("x%d" % j, [("a%d" % q, "v") for q in range(20)]) for j in range(3)]
                sids[c.send("traces", wd.export(items))] = uid
                if i % 50 == 49:
                    pass
            got.append((c, sids))
        for c, sids in got:
            for s in c.wait(sids, 120):
                want.add(sids[s])
        if len(want) < 100:
            wd.fail("only %d requests acknowledged" % len(want))
        st, h, body = wd.http(r.admin)
        seen = set()
        for s in json.loads(body)["samples"]:
            for a in s.get("span", {}).get("attributes", []):
                if a["name"] == "app.uid":
                    seen.add(a["value"])
        miss = want - seen
        if miss:
            wd.fail("%d of %d acknowledged requests are not in the report" % (len(miss), len(want)))
        print("ok", len(want))
    finally:
        r.kill()
