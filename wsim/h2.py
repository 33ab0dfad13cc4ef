"""Just enough HTTP/2 and HPACK: build gRPC client requests, decode both directions."""
import struct
from .hufftab import T as HUFF

PREFACE = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"

STATIC = [
    (":authority", ""), (":method", "GET"), (":method", "POST"), (":path", "/"), (":path", "/index.html"),
    (":scheme", "http"), (":scheme", "https"), (":status", "200"), (":status", "204"), (":status", "206"),
    (":status", "304"), (":status", "400"), (":status", "404"), (":status", "500"), ("accept-charset", ""),
    ("accept-encoding", "gzip, deflate"), ("accept-language", ""), ("accept-ranges", ""), ("accept", ""),
    ("access-control-allow-origin", ""), ("age", ""), ("allow", ""), ("authorization", ""), ("cache-control", ""),
    ("content-disposition", ""), ("content-encoding", ""), ("content-language", ""), ("content-length", ""),
    ("content-location", ""), ("content-range", ""), ("content-type", ""), ("cookie", ""), ("date", ""), ("etag", ""),
    ("expect", ""), ("expires", ""), ("from", ""), ("host", ""), ("if-match", ""), ("if-modified-since", ""),
    ("if-none-match", ""), ("if-range", ""), ("if-unmodified-since", ""), ("last-modified", ""), ("link", ""),
    ("location", ""), ("max-forwards", ""), ("proxy-authenticate", ""), ("proxy-authorization", ""), ("range", ""),
    ("referer", ""), ("refresh", ""), ("retry-after", ""), ("server", ""), ("set-cookie", ""),
    ("strict-transport-security", ""), ("transfer-encoding", ""), ("user-agent", ""), ("vary", ""), ("via", ""),
    ("www-authenticate", "")]

_DEC = {}
for _sym, (_n, _c) in enumerate(HUFF):
    _DEC[(_n, _c)] = _sym


def huff_decode(b):
    out = bytearray()
    code = n = 0
    for byte in b:
        for i in range(7, -1, -1):
            code = (code << 1) | ((byte >> i) & 1)
            n += 1
            s = _DEC.get((n, code))
            if s is not None:
                if s == 256:
                    return bytes(out)
                out.append(s)
                code = n = 0
    return bytes(out)


class Hpack:
    """HPACK decoder with a dynamic table."""

    def __init__(self):
        self.dyn = []
        self.maxsize = 4096

    def _get(self, i):
        if i <= len(STATIC):
            return STATIC[i - 1]
        return self.dyn[i - len(STATIC) - 1]

    def _add(self, kv):
        self.dyn.insert(0, kv)
        while sum(len(k) + len(v) + 32 for k, v in self.dyn) > self.maxsize:
            self.dyn.pop()

    def decode(self, b):
        out = []
        p = 0

        def integer(p, bits):
            m = (1 << bits) - 1
            v = b[p] & m
            p += 1
            if v < m:
                return v, p
            s = 0
            while True:
                x = b[p]
                p += 1
                v += (x & 127) << s
                s += 7
                if not x & 128:
                    return v, p

        def string(p):
            h = b[p] & 128
            n, p = integer(p, 7)
            d = b[p:p + n]
            p += n
            if h:
                d = huff_decode(d)
            return d.decode("latin1"), p

        while p < len(b):
            c = b[p]
            if c & 128:
                i, p = integer(p, 7)
                out.append(self._get(i))
            elif c & 0xc0 == 0x40:
                i, p = integer(p, 6)
                if i:
                    k = self._get(i)[0]
                else:
                    k, p = string(p)
                v, p = string(p)
                self._add((k, v))
                out.append((k, v))
            elif c & 0xe0 == 0x20:
                self.maxsize, p = integer(p, 5)
                self._add(("", ""))
                self.dyn.pop(0) if self.dyn else None
            else:
                i, p = integer(p, 4)
                if i:
                    k = self._get(i)[0]
                else:
                    k, p = string(p)
                v, p = string(p)
                out.append((k, v))
        return out


def hp_lit(k, v):
    k = k.encode()
    v = v.encode()

    def n(x):
        assert x < 127
        return bytes([x])
    return b"\0" + n(len(k)) + k + n(len(v)) + v


def frame(t, flags, sid, payload=b""):
    return struct.pack(">I", len(payload))[1:] + bytes([t, flags]) + struct.pack(">I", sid) + payload


def client_open():
    return PREFACE + frame(4, 0, 0, b"")


def grpc_request(sid, path, msg, split=None):
    """HEADERS + DATA frame(s) of a unary gRPC call."""
    hdr = b"\x83\x86" + hp_lit(":path", path) + hp_lit(":authority", "localhost") + \
        hp_lit("content-type", "application/grpc") + hp_lit("te", "trailers")
    body = b"\0" + struct.pack(">I", len(msg)) + msg
    out = frame(1, 4, sid, hdr)
    parts = []
    if split:
        while len(body) > split:
            parts.append(body[:split])
            body = body[split:]
    parts.append(body)
    for i, x in enumerate(parts):
        while len(x) > 16000:
            out += frame(0, 0, sid, x[:16000])
            x = x[16000:]
        out += frame(0, 1 if i == len(parts) - 1 else 0, sid, x)
    return out


def http2_request(sid, method, path):
    m = b"\x82" if method == "GET" else b"\x83"
    return frame(1, 5, sid, m + b"\x86" + hp_lit(":path", path) + hp_lit(":authority", "localhost"))


def decode_stream(data, preface=False):
    """-> {sid: {"headers":[...all header blocks merged...], "data":bytes, "end":bool, "rst":code|None}} in order."""
    p = 24 if preface else 0
    hp = Hpack()
    st = {}
    goaway = None
    while len(data) - p >= 9:
        n = int.from_bytes(data[p:p + 3], "big")
        t, fl = data[p + 3], data[p + 4]
        sid = int.from_bytes(data[p + 5:p + 9], "big") & 0x7fffffff
        if len(data) - p - 9 < n:
            break
        pay = data[p + 9:p + 9 + n]
        p += 9 + n
        if t == 7:
            goaway = (int.from_bytes(pay[0:4], "big"), int.from_bytes(pay[4:8], "big"))
        if t not in (0, 1, 3):
            continue
        s = st.setdefault(sid, {"headers": [], "data": b"", "end": False, "rst": None})
        if t == 1:
            if fl & 8:
                pad = pay[0]
                pay = pay[1:len(pay) - pad]
            if fl & 0x20:
                pay = pay[5:]
            s["headers"] += hp.decode(pay)
        elif t == 0:
            s["data"] += pay
        elif t == 3:
            s["rst"] = int.from_bytes(pay, "big")
        if t in (0, 1) and fl & 1:
            s["end"] = True
    return st, goaway


def grpc_messages(data):
    out = []
    p = 0
    while len(data) - p >= 5:
        n = int.from_bytes(data[p + 1:p + 5], "big")
        if len(data) - p - 5 < n:
            break
        out.append(data[p + 5:p + 5 + n])
        p += 5 + n
    return out
