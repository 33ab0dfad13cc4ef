"""Helper for the demonstrations: runs the built weaver binary in a scratch folder and talks to it."""
import json
import os
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time

WEAVER = os.path.join(os.getcwd(), "target/debug/weaver")


# ---- protobuf
def vi(v):
    v &= (1 << 64) - 1
    o = bytearray()
    while True:
        b = v & 127
        v >>= 7
        o.append(b | (128 if v else 0))
        if not v:
            return bytes(o)


def fl(n, b):
    b = b.encode() if isinstance(b, str) else b
    return vi(n << 3 | 2) + vi(len(b)) + b


def fv(n, v):
    return vi(n << 3) + vi(v)


def attrs(f, d):
    return b"".join(fl(f, fl(1, k) + fl(2, fl(1, v) if isinstance(v, str) else fv(3, v))) for k, v in d)


def span(name, at=(), kind=1):
    return fl(1, b"\1" * 16) + fl(2, b"\2" * 8) + fl(5, name) + fv(6, kind) + attrs(9, at)


def log(name, at=()):
    return fl(12, name) + attrs(6, at)


def gauge(name, unit, at=()):
    return fl(1, name) + fl(3, unit) + fl(5, fl(1, vi(6 << 3 | 1) + struct.pack("<q", 1) + attrs(7, at)))


def profile(fmt):
    return fl(9, fmt)


def export(items, res=None, scope=None):
    s = (fl(1, fl(1, scope)) if scope else b"") + b"".join(fl(2, i) for i in items)
    return fl(1, (fl(1, attrs(1, res)) if res is not None else b"") + fl(2, s))


PATH = {"traces": "/opentelemetry.proto.collector.trace.v1.TraceService/Export",
        "metrics": "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
        "logs": "/opentelemetry.proto.collector.logs.v1.LogsService/Export",
        "profiles": "/opentelemetry.proto.collector.profiles.v1development.ProfilesService/Export"}


# ---- HTTP/2
def frame(t, f, sid, p=b""):
    return struct.pack(">I", len(p))[1:] + bytes([t, f]) + struct.pack(">I", sid) + p


def lit(k, v):
    return b"\0" + bytes([len(k)]) + k.encode() + bytes([len(v)]) + v.encode()


def call(sid, sig, msg):
    h = b"\x83\x86" + lit(":path", PATH[sig]) + lit(":authority", "localhost") + lit("content-type", "application/grpc") + lit("te", "trailers")
    b = b"\0" + struct.pack(">I", len(msg)) + msg
    o = frame(1, 4, sid, h)
    while len(b) > 16000:
        o += frame(0, 0, sid, b[:16000])
        b = b[16000:]
    return o + frame(0, 1, sid, b)


class Grpc:
    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.sendall(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + frame(4, 0, 0))
        self.sid = -1
        self.buf = b""
        self.done = set()

    def send(self, sig, msg):
        self.sid += 2
        self.s.sendall(call(self.sid, sig, msg))
        return self.sid

    def wait(self, sids, timeout=20):
        """Waits for the end of the given streams; returns the set that was answered."""
        sids = set(sids)
        end = time.time() + timeout
        while not sids <= self.done:
            self.s.settimeout(max(0.01, end - time.time()))
            try:
                b = self.s.recv(65536)
            except OSError:
                break
            if not b:
                break
            self.buf += b
            while len(self.buf) >= 9:
                n = int.from_bytes(self.buf[:3], "big")
                if len(self.buf) < 9 + n:
                    break
                t, f, sid = self.buf[3], self.buf[4], int.from_bytes(self.buf[5:9], "big")
                p = self.buf[9:9 + n]
                self.buf = self.buf[9 + n:]
                if t == 4 and not f & 1:
                    self.s.sendall(frame(4, 1, 0))
                if t == 6 and not f & 1:
                    self.s.sendall(frame(6, 1, 0, p))
                if t == 1 and f & 1:
                    self.done.add(sid)
        return sids & self.done

    def export(self, sig, msg, timeout=20):
        return bool(self.wait([self.send(sig, msg)], timeout))

    def close(self):
        self.s.close()


def http(port, method="POST", path="/stop", timeout=90, slow=0):
    s = socket.create_connection(("127.0.0.1", port))
    if slow:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 131072)
    s.settimeout(timeout)
    s.sendall(("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: 0\r\n\r\n" % (method, path)).encode())
    if slow:
        time.sleep(slow)
    b = b""
    try:
        while True:
            x = s.recv(65536)
            if not x:
                break
            b += x
    except OSError:
        pass
    h, _, body = b.partition(b"\r\n\r\n")
    return (int(h.split()[1]) if h else None), h, body


def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


REG = {"groups": [{"id": "registry.app", "type": "attribute_group", "brief": "x", "attributes": [
    {"id": "service.name", "type": "string", "brief": "b", "stability": "stable", "examples": ["x"]},
    {"id": "app.uid", "type": "string", "brief": "b", "stability": "stable", "examples": ["x"]},
    {"id": "app.old", "type": "string", "brief": "b", "stability": "stable", "examples": ["x"], "deprecated": {"reason": "obsoleted", "note": "gone"}}]}]}


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="wdemo")
        self.home = os.path.join(self.dir, "home")
        os.mkdir(self.home)
        self.put("reg/manifest.yaml", json.dumps({"name": "x", "schema_url": "https://x.y/1.0.0"}))
        self.put("reg/a.yaml", json.dumps(REG))
        self.env = {"HOME": self.home, "PATH": os.environ["PATH"], "TMPDIR": self.dir}

    def put(self, name, text):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w" if isinstance(text, str) else "wb") as f:
            f.write(text)
        return p

    def get(self, name):
        with open(os.path.join(self.dir, name), "rb") as f:
            return f.read()

    def run(self, *argv, timeout=60, pre=None, env=None):
        e = dict(self.env)
        e.update(env or {})
        p = subprocess.run([WEAVER] + list(argv), cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


class Receiver:
    """A live-check or infer process listening for OTLP."""
    def __init__(self, sc, *argv, cmd="live-check", stdout="out.txt", inactivity=0, env=None):
        self.sc, self.grpc, self.admin = sc, port(), port()
        pp = ["--otlp-grpc-port", str(self.grpc)] if cmd == "live-check" else ["--grpc-port", str(self.grpc)]
        base = ["registry", cmd] + (["-r", "reg"] if cmd == "live-check" else [])
        e = dict(sc.env)
        e.update(env or {})
        self.out = open(os.path.join(sc.dir, stdout), "wb") if isinstance(stdout, str) else stdout
        self.err = open(os.path.join(sc.dir, "err.txt"), "wb")
        self.p = subprocess.Popen([WEAVER] + base + pp + ["--admin-port", str(self.admin), "--inactivity-timeout", str(inactivity)] + list(argv),
                                  cwd=sc.dir, env=e, stdout=self.out, stderr=self.err, stdin=subprocess.DEVNULL)
        for _ in range(400):
            try:
                socket.create_connection(("127.0.0.1", self.admin)).close()
                return
            except OSError:
                if self.p.poll() is not None:
                    break
                time.sleep(0.05)
        raise SystemExit("receiver did not start: " + sc.get("err.txt").decode())

    def wait(self, timeout=60):
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None

    def sig(self, s):
        self.p.send_signal(s)

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


class Collector:
    """An OTLP/gRPC collector that rejects the export requests of some signals."""
    def __init__(self, bad=()):
        self.bad, self.seen = bad, set()
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(16)
        self.port = self.l.getsockname()[1]
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(s,), daemon=True).start()

    def serve(self, s):
        try:
            buf, first, sig, ok = b"", True, {}, b"\x88" + lit("content-type", "application/grpc")
            s.sendall(frame(4, 0, 0))
            last = None
            while True:
                x = s.recv(65536)
                if not x:
                    return
                buf += x
                if first and len(buf) >= 24:
                    buf, first = buf[24:], False
                while not first and len(buf) >= 9 and len(buf) >= 9 + int.from_bytes(buf[:3], "big"):
                    n = int.from_bytes(buf[:3], "big")
                    t, f, sid = buf[3], buf[4], int.from_bytes(buf[5:9], "big")
                    p, buf = buf[9:9 + n], buf[9 + n:]
                    if t == 4 and not f & 1:
                        s.sendall(frame(4, 1, 0))
                    if t == 6 and not f & 1:
                        s.sendall(frame(6, 1, 0, p))
                    if t == 0:
                        if p:
                            s.sendall(frame(8, 0, 0, struct.pack(">I", len(p))))
                        sig.setdefault(sid, b"")
                        sig[sid] += p
                        if f & 1:
                            k = self.kind(sig.pop(sid))
                            self.seen.add(k)
                            if k in self.bad:
                                s.sendall(frame(1, 5, sid, ok + lit("grpc-status", "3")))
                            else:
                                s.sendall(frame(1, 4, sid, ok) + frame(0, 0, sid, b"\0\0\0\0\0") + frame(1, 5, sid, lit("grpc-status", "0")))
        except OSError:
            pass

    @staticmethod
    def kind(b):
        """The signal of an export request, told by the names in it."""
        return "metrics" if b"app.m" in b else "logs" if b"app.e" in b else "traces"

    def close(self):
        self.l.close()


KILL_C = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
/* kills the process with SIGKILL at the KILL_AT-th creation of a file, and gives it a fixed process id, as a container does */
static int n;
static void hit(int flags) {
    const char *k = getenv("KILL_AT");
    if ((flags & O_CREAT) && k && ++n == atoi(k)) syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL);
}
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); hit(f); return syscall(SYS_openat, AT_FDCWD, p, f, m); }
int open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); hit(f); return syscall(SYS_openat, AT_FDCWD, p, f, m); }
pid_t getpid(void) { return getenv("FIX_PID") ? 7 : (pid_t)syscall(SYS_getpid); }
'''


def preload(sc):
    sc.put("kill.c", KILL_C)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", sc.dir + "/kill.so", sc.dir + "/kill.c", "-ldl"], check=True)
    return sc.dir + "/kill.so"
