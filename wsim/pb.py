"""Minimal protobuf wire encoding for the OTLP messages the scenarios use."""
import struct


def varint(v):
    v &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = v & 127
        v >>= 7
        if v:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)


def f_len(n, b):
    if isinstance(b, str):
        b = b.encode()
    return varint(n << 3 | 2) + varint(len(b)) + b


def f_var(n, v):
    return varint(n << 3) + varint(v)


def f_f64(n, v):
    return varint(n << 3 | 1) + struct.pack("<d", v)


def f_fix64(n, v):
    return varint(n << 3 | 1) + struct.pack("<Q", v)


def any_value(v):
    if v is None:
        return b""
    if isinstance(v, bool):
        return f_var(2, int(v))
    if isinstance(v, str):
        return f_len(1, v)
    if isinstance(v, int):
        return f_var(3, v)
    if isinstance(v, float):
        return f_f64(4, v)
    if isinstance(v, list):
        return f_len(5, b"".join(f_len(1, any_value(x)) for x in v))
    raise TypeError(v)


def key_value(k, v):
    return f_len(1, k) + f_len(2, any_value(v))


def attrs(field, d):
    return b"".join(f_len(field, key_value(k, v)) for k, v in d)


def resource(d):
    return attrs(1, d)


def scope(name, version="", at=()):
    return f_len(1, name) + (f_len(2, version) if version else b"") + attrs(3, at)


def span(name, kind, at=(), events=(), links=(), status=None):
    b = f_len(1, b"\1" * 16) + f_len(2, b"\2" * 8) + f_len(5, name) + f_var(6, kind) + f_fix64(7, 1) + f_fix64(8, 2) + attrs(9, at)
    for n, a in events:
        b += f_len(11, f_fix64(1, 1) + f_len(2, n) + attrs(3, a))
    for a in links:
        b += f_len(13, f_len(1, b"\1" * 16) + f_len(2, b"\2" * 8) + attrs(4, a))
    if status is not None:
        b += f_len(15, f_len(2, status[1]) + f_var(3, status[0]))
    return b


def f_fix32(n, v):
    return varint(n << 3 | 5) + struct.pack("<I", v)


def number(dfield, ifield, v):
    return f_f64(dfield, v) if isinstance(v, float) else varint(ifield << 3 | 1) + struct.pack("<q", v)


def exemplars(field, exs):
    """exs: [(value, filtered attributes)]"""
    return b"".join(f_len(field, f_fix64(2, 9) + number(3, 6, v) + f_len(4, b"\2" * 8) + f_len(5, b"\1" * 16) + attrs(7, a)) for v, a in exs)


def number_point(val, at=(), x=None):
    x = x or {}
    return f_fix64(3, 5) + number(4, 6, val) + exemplars(5, x.get("ex", ())) + attrs(7, at) + (f_var(8, x["flags"]) if "flags" in x else b"")


def hist_point(val, at, x):
    x = x or {}
    b = f_fix64(3, 5) + f_fix64(4, x.get("count", 1)) + f_f64(5, float(val))
    b += b"".join(f_fix64(6, n) for n in x.get("buckets", ())) + b"".join(f_f64(7, n) for n in x.get("bounds", ()))
    return b + exemplars(8, x.get("ex", ())) + attrs(9, at) + b"".join(f_f64(n, x[k]) for n, k in ((11, "min"), (12, "max")) if k in x)


def zigzag(n):
    return (n << 1) ^ (n >> 31)


def exp_point(val, at, x):
    x = x or {}
    b = attrs(1, at) + f_fix64(3, 5) + f_fix64(4, x.get("count", 1)) + f_f64(5, float(val)) + f_var(6, zigzag(x.get("scale", 0))) + f_fix64(7, x.get("zero", 0))
    for n, k in ((8, "positive"), (9, "negative")):
        if k in x:
            b += f_len(n, f_var(1, zigzag(x[k][0])) + f_len(2, b"".join(varint(c) for c in x[k][1])))
    return b + exemplars(11, x.get("ex", ())) + b"".join(f_f64(n, x[k]) for n, k in ((12, "min"), (13, "max")) if k in x)


def metric(name, unit, instrument, points):
    """instrument: gauge | counter | updowncounter | histogram | exphistogram | summary | none; points: [(value, attributes, more)]"""
    b = f_len(1, name) + f_len(3, unit)
    points = [(p[0], p[1], p[2] if len(p) > 2 else None) for p in points]
    if instrument == "gauge":
        b += f_len(5, b"".join(f_len(1, number_point(*p)) for p in points))
    elif instrument in ("counter", "updowncounter"):
        b += f_len(7, b"".join(f_len(1, number_point(*p)) for p in points) + f_var(2, 2) + f_var(3, int(instrument == "counter")))
    elif instrument == "histogram":
        b += f_len(9, b"".join(f_len(1, hist_point(*p)) for p in points) + f_var(2, 2))
    elif instrument == "exphistogram":
        b += f_len(10, b"".join(f_len(1, exp_point(*p)) for p in points) + f_var(2, 2))
    elif instrument == "summary":
        b += f_len(11, b"".join(f_len(1, f_fix64(3, 5) + f_fix64(4, 1) + f_f64(5, float(v)) + attrs(7, a)) for v, a, _ in points))
    return b


def log_record(event_name, at=(), body=None, sev=9, text="", traced=False):
    b = f_fix64(1, 7) + f_var(2, sev) + (f_len(3, text) if text else b"")
    if body is not None:
        b += f_len(5, any_value(body))
    b += attrs(6, at)
    if traced:
        b += f_fix32(8, 1) + f_len(9, b"\3" * 16) + f_len(10, b"\4" * 8)
    if event_name:
        b += f_len(12, event_name)
    return b


def profile(fmt, idx):
    return f_len(9, fmt) + f_len(11, b"".join(varint(i) for i in idx))


def profiles_dictionary(kvs):
    """string table and attribute table for a list of (key, value); entry i+1 is kvs[i]."""
    b = f_len(5, "") + b"".join(f_len(5, k) for k, _ in kvs) + f_len(6, b"")
    for i, (k, v) in enumerate(kvs):
        b += f_len(6, f_var(1, i + 1) + f_len(2, any_value(v)))
    return b


# request: list of (resource attrs | None, [(scope | None, [encoded items])])
def export(groups):
    out = b""
    for res, scopes in groups:
        g = b""
        if res is not None:
            g += f_len(1, resource(res))
        for x in scopes:
            sc, items = x[0], x[1]
            s = b""
            if sc is not None:
                s += f_len(1, scope(*sc))
            for it in items:
                s += f_len(2, it)
            if len(x) > 2 and x[2]:
                s += f_len(3, x[2])
            g += f_len(2, s)
        out += f_len(1, g)
    return out


PATHS = {
    "traces": "/opentelemetry.proto.collector.trace.v1.TraceService/Export",
    "metrics": "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
    "logs": "/opentelemetry.proto.collector.logs.v1.LogsService/Export",
    "profiles": "/opentelemetry.proto.collector.profiles.v1development.ProfilesService/Export",
}


def decode(b):
    """Generic decode -> list of (field, wiretype, value)."""
    out = []
    p = 0

    def vi(p):
        v = s = 0
        while True:
            x = b[p]
            p += 1
            v |= (x & 127) << s
            s += 7
            if not x & 128:
                return v, p
    while p < len(b):
        k, p = vi(p)
        f, w = k >> 3, k & 7
        if w == 0:
            v, p = vi(p)
        elif w == 1:
            v = b[p:p + 8]
            p += 8
        elif w == 2:
            n, p = vi(p)
            v = b[p:p + n]
            p += n
        elif w == 5:
            v = b[p:p + 4]
            p += 4
        else:
            raise ValueError("wire type")
        out.append((f, w, v))
    return out


def sub(b, f):
    return [v for (n, w, v) in decode(b) if n == f]


def dec_any(b):
    for f, w, v in decode(b):
        if f == 1:
            return v.decode("utf8", "replace")
        if f == 2:
            return bool(v)
        if f == 3:
            return v - (1 << 64) if v >> 63 else v
        if f == 4:
            return struct.unpack("<d", v)[0]
        if f == 5:
            return [dec_any(x) for x in sub(v, 1)]
        if f == 7:
            return v.hex()
    return None


def dec_attrs(bs):
    d = []
    for kv in bs:
        k = sub(kv, 1)
        v = sub(kv, 2)
        d.append((k[0].decode() if k else "", dec_any(v[0]) if v else None))
    return d
