"""C18: telemetry piped into live-check is judged like the same telemetry in a file, as it arrives, and never quietly cut short."""
import base64
import errno
import json
import random

from .. import core, otlp, reggen, sim
from .c19 import names_of, otlp_adv, sample

US = 1000000


def B(b):
    return base64.b64encode(b).decode()


def text_line(rng, names, i):
    n = rng.choice(names["attribute"]) if names["attribute"] and rng.random() < 0.6 else rng.choice(["un.known%d" % i, "App.X%d" % i, "näme.ü%d" % i, "a b %d" % i, "x" * rng.choice([3, 5000])])
    v = rng.choice([None, None, "x", "3", "3.5", "true", "[1,2]", "[\"a\",\"b\"]", "a=b", "", "{\"k\":1}", "v0", "v1", "ünï", " sp ", "null", "1e400"])
    return rng.choice(["", "", " ", "\t"]) + n + ("" if v is None else rng.choice(["=", " = "]) + v) + rng.choice(["", "", " "])


def feed(rng, data):
    """Client operations that write `data` in pieces."""
    style = rng.choice(["one", "few", "lines", "bytes", "slow"])
    cuts = set()
    n = len(data)
    if style == "few":
        cuts = {rng.randrange(n + 1) for _ in range(rng.randrange(1, 6))}
    elif style == "lines":
        p = data.find(b"\n")
        while p >= 0 and len(cuts) < 200:
            cuts.add(p + rng.choice([0, 1, 1, 1]))
            p = data.find(b"\n", p + 1)
    elif style == "bytes":
        a = rng.randrange(n + 1)
        cuts = set(range(a, min(n, a + 60)))
    elif style == "slow":
        cuts = set(range(0, n, max(1, n // 12)))
    c = [0] + sorted(x for x in cuts if 0 < x < n) + [n]
    ops = []
    for a, b in zip(c, c[1:]):
        if a < b:
            ops.append(["send", B(data[a:b])])
            if style != "one" and rng.random() < 0.7:
                ops.append(["sleep", 0, rng.choice([100, 5000, 2 * US]) if style != "slow" else 20 * US])
    return ops, style


class C18(core.Prop):
    id = "C18"
    level = "exploration"
    quick_s = 35
    k = 4
    stub = "the process at the other end of the pipes (scripted bytes)"
    rule = ("seeded registry, policies and telemetry (text lines or JSON samples of all kinds) judged once from a file and then from a simulated pipe: chopped anywhere, paused for seconds, with slow or stopped reading of the output, "
            "interrupted and short reads and writes, and seeded schedules; interactive sessions that send a line only when the previous one was reported; and read errors at a chosen read; the report, its files and the exit code must "
            "be those of the file; non-trivial when at least two samples were judged")
    assumptions = ["text input holds no empty line (standard input ends there by design, a file does not) and is valid UTF-8", "only standard output, written files and the exit code are compared"]

    def case(self, rng, tier, idx):
        while True:
            files, reg = reggen.gen(rng, size=rng.choice([0.5, 1.0]))[:2]
            names = names_of(reg)
            if any(names.values()):
                break
        files = dict(files)
        argv = ["registry", "live-check", "-r", "reg"]
        if rng.random() < 0.35:
            argv += ["--advice-policies", "adv"]
            files.update(otlp_adv(rng))
        if rng.random() < 0.3:
            argv.append("--v2")
        if rng.random() < 0.3:
            argv += ["--fail-on", rng.choice(["violation", "improvement", "information", "none"])]
        if rng.random() < 0.1:
            argv.append("--no-stats")
        text = rng.random() < 0.5
        if text:
            lines = [text_line(rng, names, i) for i in range(rng.choice([1, 3, 10, 60]))]
            lines = [l for l in lines if l.strip()] or ["x"]
            if rng.random() < 0.1:
                lines = (lines * 40)[:600]
            nl = rng.choice(["\n", "\n", "\r\n"])
            data = (nl.join(lines) + rng.choice(["", nl])).encode()
            n = len(lines)
        else:
            n = rng.choice([0, 1, 3, 10, 40])
            s = [sample(rng, names) for _ in range(n)]
            data = json.dumps(s, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1])).encode()
            if rng.random() < 0.12:
                data = rng.choice([data[:rng.randrange(len(data))], data + b"]", b"", b"null", data + b"\xff"])
        fmt = rng.choice(["ansi", "json", "jsonl", "yaml"])
        mode = rng.choice(["stream", "report", "file"]) if fmt != "yaml" else rng.choice(["report", "file"])
        argv += ["--format", fmt] + {"stream": [], "report": ["--no-stream"], "file": ["--output", "out"]}[mode]
        ext = "txt" if text else "json"
        files["in." + ext] = {"b64": B(data)}
        f = ["--input-format", "text" if text else "json"]
        steps = []
        inter = text and mode == "stream" and n <= 60
        for k in range(self.k):
            kind = rng.choice(["feed", "feed", "interactive" if inter else "feed", "readerr", "redirect"])
            p = core.sched(rng, net=True)
            p.pop("jumps", None)
            if rng.random() < 0.15:
                p["freeze"] = [core.stall(rng) for _ in range(rng.choice([1, 1, 2]))]
            st = {"argv": argv + ["--input-source", "stdin"] + f, "plan": p, "fresh": 1, "kind": kind}
            if kind in ("readerr", "redirect"):
                st["stdin"] = {"b64": B(data)}
                if kind == "readerr":
                    st["plan"]["faults"] = [["read", "<stdin>", rng.choice([1, 1, 2, 3]), -1, errno.EIO, 0]]
            else:
                p["latency_us"] = rng.choice([[1, 5], [50, 400], [100, 20000]])
                if rng.random() < 0.4:
                    p["sndbuf"] = rng.choice([512, 4096, 65536])
                if kind == "interactive":
                    ops = []
                    ls = data.split(b"\n")
                    ls = ls if ls[-1] else ls[:-1]
                    for i, l in enumerate(ls):
                        # a line that is reported under a name of its own
                        key = "mark.q%dz" % i
                        ops += [["send", B(l + b"\n" + key.encode() + b"\n")], ["recvwait", key.encode().hex(), 60 * US, 0]]
                        if rng.random() < 0.2:
                            ops.append(["sleep", 0, 30 * US])
                    st["marked"] = 1
                else:
                    ops, st["style"] = feed(rng, data)
                    if rng.random() < 0.25 and len(ops) > 1:
                        i = rng.randrange(len(ops))
                        j = rng.randrange(i, len(ops))
                        ops = ops[:i] + [["noread"]] + ops[i:j] + [["sleep", 1000, 5 * US], ["read"]] + ops[j:]
                ops += [["shutwr"], ["waiteof", 300 * US]]
                p["actors"] = [{"name": "io", "type": "stdio", "ops": ops}]
            steps.append(st)
        return {"sc": {"files": files, "steps": steps}, "meta": {"argv": " ".join(argv), "src": argv + ["--input-source", "in." + ext] + f, "text": text, "fmt": fmt, "mode": mode, "n": n}}

    def from_file(self, slot, case, marked):
        m = case["meta"]
        files = dict(case["sc"]["files"])
        if marked:
            b = base64.b64decode(files["in.txt"]["b64"])
            ls = b.split(b"\n")
            ls = ls if ls[-1] else ls[:-1]
            files["in.txt"] = {"b64": B(b"".join(l + b"\nmark.q%dz\n" % i for i, l in enumerate(ls)))}
        return self.ref(slot, "file%d" % marked, {"files": files, "steps": [{"argv": m["src"], "plan": core.calm()}]})[0]

    @staticmethod
    def data(t, fmt):
        """The report as data: the maps of its statistics are printed in no particular order."""
        try:
            if fmt == "ansi":
                return sorted(t.decode("utf8", "replace").split("\n"))
            if fmt == "yaml":
                x = otlp.Report(t.decode("utf8"), fmt)
                return [x.samples, x.stats]
            return otlp.parse_json_stream(t.decode("utf8"))
        except Exception:
            return t

    def view(self, r, piped, fmt):
        o = b"".join(b for _, b in sim.rx_bytes(r.log).get(("io", 0), [])) if piped else r.out
        if isinstance(o, str):
            o = o.encode("utf8", "replace")
        fs = {k: self.data(v, fmt) for k, v in r.norm_files().items() if k.startswith("out")}
        return {"exit code": r.rc, "standard output": self.data(o, fmt), "files": fs}

    def run(self, slot, case):
        out = core.Outcome()
        m = case["meta"]
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        out.nontrivial = m["n"] > 1
        out.cover = ["%s/%s/%s" % ("text" if m["text"] else "json", m["fmt"], m["mode"])]
        for st, r in zip(case["sc"]["steps"], rs):
            ref = self.from_file(slot, case, 1 if st.get("marked") else 0)
            out.cover += ["%s exit%s" % (st["kind"] + (":" + st["style"] if st.get("style") else ""), ref.rc)]
            if ref.special or ref.rc not in (0, 1):
                out.fail("file", "live-check of the file ended with %s %s: %s" % (ref.special, ref.rc, ref.text("err")[-300:]))
                return out
            if any(l.split(" ")[0] == "OPTIMEOUT" for l in r.log):
                out.fail("late", "a line sent on standard input was not reported within 60 s although its writer waited for it")
                return out
            if r.special or r.rc not in (0, 1):
                out.fail("crash", "live-check of standard input ended with %s %s: %s" % (r.special, r.rc, r.text("err")[-500:]))
                return out
            if st["kind"] == "readerr" and any(r.flt.values()):
                if r.rc == 0:
                    out.fail("cut", "standard input could not be read, yet the command reported success")
                    return out
                out.cover.append("read error")
                continue
            a, b = self.view(ref, False, m["fmt"]), self.view(r, st["kind"] in ("feed", "interactive"), m["fmt"])
            for k in a:
                if a[k] != b[k]:
                    x, y = str(a[k]), str(b[k])
                    n = next((i for i, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
                    out.fail("differs", "%s: the %s is not the one of the same input in a file: %s instead of %s; diagnostics: %s" % (st["kind"], k, y[max(0, n - 60):n + 160], x[max(0, n - 60):n + 160], r.text("err")[-200:]))
                    return out
        return out

    def shrink(self, case):
        st = case["sc"]["steps"]
        if len(st) > 1:
            for i in range(len(st)):
                c = sim.clone(case)
                c["sc"]["steps"] = [sim.clone(st[i])]
                yield c

    def describe(self, case):
        return {"argv": case["meta"]["argv"], "kinds": [s.get("kind") for s in case["sc"]["steps"]]}


PROP = C18
