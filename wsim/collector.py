"""A scripted OTLP/gRPC collector (the peer of `emit` and `--emit-otlp-logs`) and what it received."""
import json
import re

from . import h2, pb, sim

PATHS = {v: k for k, v in pb.PATHS.items()}
SRV = re.compile(r"H2SRV (\d+) actor=(\S+) conn=(\d+) sid=(\d+) ord=(\d+) policy=(\S+)")
KINDS = {1: "internal", 2: "server", 3: "client", 4: "producer", 5: "consumer"}
BAD = ["unavail", "invalid", "rststream", "reset", "close", "stall"]


def one(b, f, d=None):
    x = pb.sub(b, f)
    return x[0] if x else d


def txt(b):
    return b.decode("utf8", "replace") if b is not None else ""


def attrs(bs):
    return json.dumps(sorted(pb.dec_attrs(bs), key=str), sort_keys=True)


def items(sig, msg):
    """-> [(signal, resource attributes, identity)] of an export request."""
    out = []
    for g in pb.sub(msg, 1):
        res = one(g, 1, b"")
        ra = attrs(pb.sub(res, 1))
        for s in pb.sub(g, 2):
            sc = txt(one(one(s, 1, b""), 1))
            for it in pb.sub(s, 2):
                if sig == "traces":
                    out.append((sig, ra, (sc, txt(one(it, 5)), KINDS.get(one(it, 6, 0), "?"), attrs(pb.sub(it, 9)))))
                elif sig == "logs":
                    out.append((sig, ra, (sc, txt(one(it, 12)), one(it, 2, 0), json.dumps(pb.dec_any(one(it, 5, b""))), attrs(pb.sub(it, 6)))))
                else:
                    kind, pts = "?", []
                    for f, k in ((5, "gauge"), (7, "sum"), (9, "histogram")):
                        d = one(it, f)
                        if d is None:
                            continue
                        kind = k
                        if k == "sum":
                            kind = "counter" if one(d, 3, 0) else "updowncounter"
                        for p in pb.sub(d, 1):
                            pts.append(attrs(pb.sub(p, 9 if k == "histogram" else 7)))
                    for p in pts or ["-"]:
                        out.append((sig, ra, (sc, txt(one(it, 1)), txt(one(it, 3)), kind, p)))
    return out


def received(r, actor="col"):
    """-> [(time, policy, signal, [items])] for every complete export request, in order of arrival."""
    pol = {}
    for l in r.log:
        if l.startswith("H2SRV"):
            m = SRV.match(l)
            if m and m.group(2) == actor:
                pol[(int(m.group(3)), int(m.group(4)))] = (int(m.group(5)), int(m.group(1)), m.group(6))
    out = []
    for (a, c), chunks in sim.rx_bytes(r.log).items():
        if a != actor:
            continue
        st, _ = h2.decode_stream(b"".join(x for _, x in chunks), preface=True)
        for sid, s in st.items():
            if (c, sid) not in pol:
                continue
            o, t, p = pol[(c, sid)]
            path = dict(s["headers"]).get(":path", "?")
            sig = PATHS.get(path, "?")
            its = []
            for m in h2.grpc_messages(s["data"]):
                its += items(sig, m)
            out.append((o, t, p, sig, its))
    return [x[1:] for x in sorted(out)]


def actor(rng, bad=0.6, port=4317):
    """A collector that may refuse, fail, stall or delay."""
    a = {"name": "col", "type": "server", "port": port, "proto": "h2", "rules": []}
    x = rng.random()
    if x < 1 - bad:
        if rng.random() < 0.3:
            a["rules"].append({"ord": -1, "kind": "ok", "delay": rng.choice([1000, 300000, 2000000])})
        return a
    y = rng.random()
    if y < 0.2:
        t = rng.choice([0, 1000, 1000000])
        a["refuse"] = [t, rng.choice([t + 1000, t + 3000000, 10**12])]
    elif y < 0.4:
        k = rng.choice(BAD)
        a["rules"].append({"ord": -1, "kind": k})
    elif y < 0.9:
        for o in sorted(rng.sample(range(6), rng.choice([1, 1, 2, 3]))):
            k = rng.choice(BAD)
            a["rules"].append({"ord": o, "kind": k})
    else:
        a["rules"].append({"ord": rng.choice([-1, 0, 1, 2]), "kind": "ok", "delay": rng.choice([4000000, 6000000, 11000000, 40000000])})
    return a
