"""Run weaver under the simulator.

A *scenario* is a plain JSON value:
  {"files": {path: text | {"b64": ...} | {"dir": true}},
   "steps": [{"argv": [...], "stdin": text|None, "env": {...}, "plan": PLAN,
              "write": {path: text}, "remove": [path]}, ...]}
and PLAN is
  {"seed": n, "hashseed": n, <knobs>..., "faults": [[cls, match, nth, until, action, arg]...],
   "actors": [ACTOR...], "hosts": {name: ip}, "jumps": [[at_us, delta_us]], "partitions": [[actor, from_us, to_us]],
   "freeze": [[thread or -1 (nobody reads standard output), from_us, to_us]],
   "devs": [[decision, thread]...]}
Replaying a scenario reproduces the execution exactly.
"""
import base64
import copy
import fcntl
import os
import re
import shutil
import signal
import stat
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIB = os.path.join(BUILD, "libwsim.so")
RUN = os.path.join(BUILD, "wsim-run")
WEAVER = os.path.join(REPO, "target", "debug", "weaver")
SCRATCH = "/tmp"

KNOBS = ["ncpu", "mode", "pswitch", "malloc", "trace", "maxsteps", "maxtime_us", "stepns", "chunk", "readdir",
         "spurious", "shortio", "eintr", "sndbuf", "fifo"]


class HarnessError(Exception):
    pass


def build_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.96.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("LD_PRELOAD", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def build(verbose=False):
    """Build the simulator and the weaver binary from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for src, out, extra in (("sim.c", LIB, ["-fPIC", "-shared"]), ("run.c", RUN, [])):
            s = os.path.join(VERIF, "sim", src)
            if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(s):
                continue
            cmd = ["gcc", "-O2", "-fno-delete-null-pointer-checks", "-g", "-w"] + extra + ["-o", out + ".tmp", s, "-ldl", "-lpthread"]
            subprocess.run(cmd, check=True)
            os.replace(out + ".tmp", out)
        os.makedirs(os.path.join(REPO, "ui", "dist"), exist_ok=True)
        t = time.time()
        r = subprocess.run(["cargo", "test", "--workspace", "--no-run", "--offline", "--locked", "--test",
                            "completion_check"], cwd=REPO, env=build_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise HarnessError("weaver does not build:\n" + r.stdout.decode(errors="replace")[-4000:])
        if verbose:
            print("build %.1fs" % (time.time() - t), flush=True)
    return WEAVER


# ------------------------------------------------------------------ slots
class Slot:
    """A scratch directory with a fixed name, so that paths are part of the seed."""

    def __init__(self, want=None):
        self.lock = None
        names = [want] if want is not None else range(64)
        for n in names:
            lk = open("%s/.wsim-slot-%02d.lock" % (SCRATCH, n), "w")
            try:
                fcntl.flock(lk, fcntl.LOCK_EX | (0 if want is not None else fcntl.LOCK_NB))
            except OSError:
                lk.close()
                continue
            self.lock, self.n = lk, n
            break
        if not self.lock:
            raise HarnessError("no free slot")
        self.base = "%s/wsim-slot-%02d" % (SCRATCH, self.n)
        self.root = self.base + "/w"
        self.clear()

    def clear(self):
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.root + "/r")
        os.makedirs(self.root + "/t")
        os.makedirs(self.root + "/h")

    def release(self):
        if self.lock:
            shutil.rmtree(self.base, ignore_errors=True)
            try:
                os.unlink("%s/.wsim-slot-%02d.lock" % (SCRATCH, self.n))
            except OSError:
                pass
            self.lock.close()
            self.lock = None


def write_tree(base, files):
    for p, c in files.items():
        fp = os.path.join(base, p)
        if isinstance(c, dict) and c.get("dir"):
            os.makedirs(fp, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        if isinstance(c, dict) and "link" in c:
            os.symlink(c["link"], fp)
            continue
        data = base64.b64decode(c["b64"]) if isinstance(c, dict) else c.encode()
        with open(fp, "wb") as f:
            f.write(data)


def snapshot(base):
    out = {}
    for d, ds, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, base)
            if os.path.islink(p):
                out[rel] = b"-> " + os.readlink(p).encode()
            else:
                with open(p, "rb") as fh:
                    out[rel] = fh.read()
        for x in ds:
            if not os.listdir(os.path.join(d, x)):
                out[os.path.relpath(os.path.join(d, x), base) + "/"] = b""
    return out


def world(base):
    """Everything below base but the temporary folders of weaver: {path: (mode, content or link target)}."""
    out = {}
    for d, ds, fs in os.walk(base):
        if d == base + "/h/.weaver/vdir_cache":
            ds[:] = [x for x in ds if not x.startswith("repo")]
        if d == base:
            ds[:] = [x for x in ds if x != "t"]
        for f in ds + fs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            body = b""
            if stat.S_ISLNK(st.st_mode):
                body = os.readlink(p).encode()
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as fh:
                    body = fh.read()
            out[os.path.relpath(p, base)] = (st.st_mode, st.st_nlink if stat.S_ISREG(st.st_mode) else 0, st.st_mtime_ns if stat.S_ISREG(st.st_mode) else 0, body)
    return out


def b64(b):
    return base64.b64encode(b).decode()


def render_plan(plan, root, blobpath):
    L = ["root " + root, "seed %d" % plan.get("seed", 1), "hashseed %d" % plan.get("hashseed", plan.get("seed", 1))]
    for k in KNOBS:
        if k in plan:
            L.append("%s %d" % (k, plan[k]))
    if "latency_us" in plan:
        L.append("latency_us %d %d" % tuple(plan["latency_us"]))
    for x in plan.get("pct", []):
        L.append("pct %d" % x)
    for d in plan.get("devs", []):
        L.append("dev %d %d" % tuple(d))
    for j in plan.get("jumps", []):
        L.append("jump %d %d" % tuple(j))
    for f in plan.get("faults", []):
        f = list(f) + [0] * (6 - len(f))
        L.append("fault %s %s %d %d %s %s" % (f[0], f[1] or "-", f[2], f[3], f[4], f[5]))
    for h, ip in plan.get("hosts", {}).items():
        L.append("host %s %s" % (h, ip))
    blob = bytearray()

    def put(data):
        off = len(blob)
        blob.extend(data)
        return off, len(data)
    acts = []
    for a in plan.get("actors", []):
        if a["type"] == "server":
            acts.append("actor %s server %d %s %s" % (a["name"], a["port"], a.get("ip", "127.0.0.1"), a.get("proto", "h1")))
            if "refuse" in a:
                acts.append("refuse %d %d" % tuple(a["refuse"]))
            for r in a.get("rules", []):
                off, n = put(base64.b64decode(r["data"])) if "data" in r else (0, 0)
                acts.append("rule %d %s %s %d %d %d:%s %d %s" % (r.get("ord", -1), r.get("kind", "ok"), r.get("path", "*"), off, n,
                                                               r.get("cut", -1), r.get("end", "close"), r.get("delay", 0), r.get("body", "-")))
        else:
            acts.append("actor %s %s" % (a["name"], a["type"]))
            for op in a["ops"]:
                if op[0] == "send":
                    off, n = put(base64.b64decode(op[1]))
                    acts.append("op send %d %d %s" % (off, n, op[2] if len(op) > 2 else "-"))
                else:
                    acts.append("op " + " ".join(str(x) for x in op))
    if blob:
        with open(blobpath, "wb") as f:
            f.write(blob)
        L.append("blob " + blobpath)
    L += acts
    for p in plan.get("freeze", []):
        L.append("freeze %d %d %d" % tuple(p))
    for p in plan.get("partitions", []):
        L.append("partition %s %d %d" % tuple(p))
    return "\n".join(L) + "\n"


class Result:
    __slots__ = ("rc", "out", "err", "log", "files", "tmp", "wall", "end", "cnt", "flt", "env", "root", "special", "before", "after")

    def lines(self, prefix):
        return [l for l in self.log if l.startswith(prefix)]

    def text(self, which="out"):
        t = getattr(self, which).decode("utf8", "replace").replace(self.root, "<ROOT>")
        return re.sub(r"vdir_cache/repo[A-Za-z0-9]{6}", "vdir_cache/repo<TMP>", t)

    def norm_files(self):
        """File contents without the names of the scratch and temporary folders."""
        return {k: re.sub(rb"vdir_cache/repo[A-Za-z0-9]{6}", b"vdir_cache/repo<TMP>", v.replace(self.root.encode(), b"<ROOT>"))
                for k, v in (self.files or {}).items()}


def read_log(path):
    out = []
    try:
        with open(path, "rb") as f:
            while True:
                b = f.read(1 << 20)
                if not b:
                    break
                i = b.find(b"\0")
                if i >= 0:
                    out.append(b[:i])
                    break
                out.append(b)
    except OSError:
        pass
    return b"".join(out).decode("utf8", "replace").split("\n")


def kvs(line):
    return dict(x.split("=", 1) for x in line.split() if "=" in x)


SPECIAL = {96: "INTERNAL", 97: "DEADLOCK", 98: "TIMELIMIT", 99: "STEPLIMIT"}
WALL_LIMIT = 150


def run_step(slot, step, wall=WALL_LIMIT, snap=True):
    r = Result()
    cwd = slot.root + "/r"
    write_tree(cwd, step.get("write", {}))
    for p in step.get("remove", []):
        fp = os.path.join(cwd, p)
        if os.path.isdir(fp):
            shutil.rmtree(fp)
        elif os.path.lexists(fp):
            os.unlink(fp)
    write_tree(cwd, step.get("post_write", {}))
    plan = step["plan"]
    r.before = world(slot.root) if step.get("world") else None
    pf, lf, bf = slot.base + "/plan", slot.base + "/log", slot.base + "/blob"
    with open(pf, "w") as f:
        f.write(render_plan(plan, slot.root, bf))
    env = {"PATH": "/usr/bin:/bin", "HOME": slot.root + "/h", "TMPDIR": slot.root + "/t", "LANG": "C.UTF-8",
           "RAYON_NUM_THREADS": str(plan.get("ncpu", 4))}
    env.update(step.get("env", {}))
    of, ef = slot.base + "/out", slot.base + "/err"
    if step.get("stdin") is not None:
        with open(slot.base + "/in", "wb") as f:
            f.write(base64.b64decode(step["stdin"]["b64"]) if isinstance(step["stdin"], dict) else step["stdin"].encode())
        fin = open(slot.base + "/in", "rb")
    else:
        fin = open("/dev/null", "rb")
    t = time.time()
    with open(of, "wb") as o, open(ef, "wb") as e:
        p = subprocess.Popen([RUN, LIB, pf, lf, WEAVER] + step["argv"], cwd=cwd, env=env, stdin=fin, stdout=o, stderr=e,
                             start_new_session=True)
        r.special = None
        try:
            r.rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            r.rc = -1000
            r.special = "WALLTIMEOUT"
    fin.close()
    r.wall = time.time() - t
    r.out = open(of, "rb").read()
    r.err = open(ef, "rb").read()
    r.log = read_log(lf)
    try:
        os.unlink(lf)
    except OSError:
        pass
    r.root = slot.root
    r.end = {}
    r.cnt = {}
    r.flt = {}
    r.env = {}
    for l in reversed(r.log):
        if l.startswith("END "):
            r.end = kvs(l)
        elif l.startswith("CNT "):
            r.cnt = {k: int(v) for k, v in kvs(l).items()}
            break
        elif l.startswith("ENV "):
            r.env = {k: int(v) for k, v in kvs(l).items()}
        elif l.startswith("FLT"):
            r.flt = {int(x.split(":")[0]): int(x.split(":")[1].split("/")[0]) for x in l.split()[1:]}
    if r.special is None and any(l.startswith(s) for s in ("DEADLOCK", "TIMELIMIT", "STEPLIMIT", "INTERNAL") for l in r.log[-400:]):
        r.special = SPECIAL.get(r.rc)
    if r.rc == 96 and not r.special:
        r.special = "INTERNAL"
    if not r.end and r.special is None and r.rc not in (-6, -11, 134, 139):
        r.special = "INTERNAL"
    r.files = snapshot(cwd) if snap else None
    r.after = world(slot.root) if step.get("world") else None
    r.tmp = sorted(os.listdir(slot.root + "/t"))
    cache = slot.root + "/h/.weaver/vdir_cache"
    if os.path.isdir(cache):
        r.tmp += ["vdir_cache/" + x for x in sorted(os.listdir(cache))]
    return r


def run_scenario(slot, sc, wall=WALL_LIMIT, snap=True):
    def fill():
        """Files named ~/... go to the home folder."""
        slot.clear()
        f = sc.get("files", {})
        write_tree(slot.root + "/r", {p: t for p, t in f.items() if not p.startswith("~/")})
        write_tree(slot.root + "/h", dict(sc.get("home", {}), **{p[2:]: t for p, t in f.items() if p.startswith("~/")}))

    fill()
    out = []
    for i, st in enumerate(sc["steps"]):
        if i and st.get("fresh"):
            fill()
        out.append(run_step(slot, st, wall, snap))
    return out


def clone(x):
    return copy.deepcopy(x)


# ------------------------------------------------------------------ log helpers
RX_RE = re.compile(r"RX (\d+) actor=(\S+) conn=(\d+) ([0-9a-f]*)$")


def rx_bytes(log):
    """-> {(actor, conn): [(t, bytes)...]}"""
    d = {}
    for l in log:
        if l.startswith("RX "):
            m = RX_RE.match(l)
            if m:
                d.setdefault((m.group(2), int(m.group(3))), []).append((int(m.group(1)), bytes.fromhex(m.group(4))))
    return d
