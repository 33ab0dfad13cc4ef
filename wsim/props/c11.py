"""C11: the admin port answers, and --output http delivers the whole report to a client that waits for it (or prints it)."""
import random

from .. import core, h2, otlp, sim
from .otlpbase import OtlpProp, files, netplan, session

B = sim.b64
STOP = b"POST /stop HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n"
STOPS = [STOP, STOP, STOP.replace(b"Host", b"Connection: close\r\nHost"), STOP.replace(b"HTTP/1.1", b"HTTP/1.0")]
HEALTH = b"GET /health HTTP/1.1\r\nHost: x\r\n\r\n"
S1 = 10**9


class C11(OtlpProp):
    id = "C11"
    rule = ("seeded live-check --output http (and other outputs): admin clients that wait, read slowly, vanish, half-close, send several /stop at once, ask for /health, use wrong "
            "methods or leave half a request open, together with telemetry clients; non-trivial when a /stop reached the running receiver")
    assumptions = ["a client that disappears before reading its answer may lose the report, but the process still ends (60 s delivery limit plus 60 s drain limit)",
                   "a /stop that arrives after another one has ended the session may be closed without an answer"]
    stub = "OTLP clients, admin clients (scripted actors)"

    def case(self, rng, tier, idx):
        S = otlp.Script(rng)
        reqs, names = session(rng, S, styles=["seq", "pipe", "chop"])
        http = rng.random() < 0.85
        kinds = {}
        early = rng.random() < 0.2
        for k in range(rng.choice([1, 1, 1, 2, 3])):
            v = rng.choice(["wait", "wait", "wait", "slow", "vanish", "half", "stall", "chopped", "pipelined"])
            n = "s%d" % k
            kinds[n] = v
            STOP = rng.choice(STOPS) if v != "pipelined" else STOPS[0]
            ops = [["connect", otlp.ADMIN]]
            if rng.random() < 0.4:
                ops += [["send", B(HEALTH), "health"], ["httpwait"]]
            if not early:
                ops += [["waitmark", "done-" + a] for a in names]
            ops.append(["sleep", 0, rng.choice([0, 500, 50000, 1000000])])
            if v in ("slow", "stall"):
                ops.append(["noread"])
            ops.append(["mark", "stop"])
            if v == "chopped":
                c = sorted(rng.randrange(1, len(STOP)) for _ in range(2))
                ops += [["send", B(STOP[:c[0]])], ["sleep", 0, 5000], ["send", B(STOP[c[0]:c[1]] or b"")], ["sleep", 0, 5000], ["send", B(STOP[c[1]:]), "stop"], ["httpwait"]]
            elif v == "pipelined":
                ops += [["send", B(HEALTH + STOP), "stop"], ["httpwait"], ["httpwait"]]
            else:
                ops.append(["send", B(STOP), "stop"])
                if v == "wait":
                    ops.append(["httpwait"])
                elif v == "slow":
                    ops += [["sleep", 1000, rng.choice([10000, 2000000, 20000000])], ["read"], ["httpwait"]]
                elif v == "vanish":
                    ops += [["sleep", 0, rng.choice([0, 1000, 10000])], [rng.choice(["reset", "close"])]]
                elif v == "half":
                    ops += [["shutwr"], ["httpwait", 5000000]]
                elif v == "stall":
                    ops += [["stall"]]
            S.actors.append({"name": n, "type": "client", "ops": ops})
        for k in range(rng.choice([0, 1, 2])):
            ops = []
            for _ in range(rng.randrange(1, 4)):
                ops += [["connect", otlp.ADMIN], ["sleep", 0, 20000]]
                w = rng.choice(["health", "health", "get-stop", "nopath", "garbage", "loris"])
                STOP = STOPS[0]
                if w == "health":
                    ops += [["send", B(HEALTH), "health"], ["httpwait", 3000000]]
                elif w == "get-stop":
                    ops += [["send", B(STOP.replace(b"POST", b"GET"))], ["httpwait", 3000000]]
                elif w == "nopath":
                    ops += [["send", B(STOP.replace(b"/stop", b"/stopx"))], ["httpwait", 3000000]]
                elif w == "garbage":
                    ops += [["send", B(bytes(rng.randrange(256) for _ in range(30)))]]
                elif w == "loris":
                    ops += [["send", B(STOP[:rng.randrange(1, 40)])]]
                    if rng.random() < 0.5:
                        kinds["loris"] = "loris"
                        break
                ops.append([rng.choice(["close", "reset"])])
            S.actors.append({"name": "n%d" % k, "type": "client", "ops": ops})
        sig = rng.random() < 0.15
        if sig:
            S.stop("sigint", names, name="sig", delay=(0, 100000))
            kinds["sig"] = "sig"
        # whatever happened before, a client that asks much later must be served (or find the process gone)
        kinds["final"] = "final"
        S.actors.append({"name": "final", "type": "client", "ops": [["sleep", 300000000, 300000000], ["connect", otlp.ADMIN], ["send", B(STOPS[0]), "stop"], ["httpwait"]]})
        fmt = rng.choice(["json", "json", "jsonl", "yaml", "ansi"])
        argv = ["registry", "live-check", "-r", "reg", "--format", fmt, "--advice-policies", "adv", "--inactivity-timeout", "0"]
        argv += ["--output", "http"] if http else ["--no-stream"]
        plan = netplan(rng, S.actors, cap_s=1000, freeze=0.2)
        plan.pop("partitions", None)
        if plan.get("sndbuf") and plan["latency_us"][1] > 1000:
            plan.pop("sndbuf")      # a report that takes more than a minute to transfer is outside the delivery limit
        return {"sc": {"files": files(rng), "steps": [{"argv": argv, "plan": plan}]},
                "meta": {"reqs": reqs, "where": {str(k): v for k, v in S.where.items()}, "never": [], "kinds": kinds, "http": http, "fmt": fmt, "early": early}}

    def run(self, slot, case):
        out = core.Outcome()
        r = self.exec(slot, case, out)[0]
        if out.skip:
            return out
        m = case["meta"]
        kinds = m["kinds"]
        waiting = [n for n, v in kinds.items() if v in ("wait", "slow", "chopped", "pipelined", "final")]
        h = otlp.History(r, m["where"])
        sent = [(i, int(l.split()[1])) for i, l in enumerate(r.log) if l.startswith("TX ") and l.endswith("tag=stop")]
        killed = any(l.startswith("KILLED") for l in r.log)
        out.cover = ["%s/%s" % ("http" if m["http"] else "stdout", m["fmt"]), "exit%s" % r.rc] + ["kind:" + v for v in set(kinds.values())]
        out.nontrivial = bool(sent)
        if killed:
            return out
        if self.crashed(out, r):
            return out
        rx = sim.rx_bytes(r.log)
        full, answers = [], {}
        for (a, c), parts in rx.items():
            data = b"".join(x for _, x in parts)
            if a in kinds:
                answers.setdefault(a, [])
                answers[a] += otlp.http_responses(data)
        # health answers
        for a, rs in answers.items():
            for st, hd, body, ok in rs:
                if body.strip() == b'{"status":"ready"}' and st != 200:
                    out.fail("health", "health answered with status %s" % st)
        for a in waiting:
            tx = [i for i, l in enumerate(r.log) if l.startswith("TX ") and "actor=%s " % a in l and l.endswith("tag=health")]
            hs = [x for x in answers.get(a, []) if x[2].strip() == b'{"status":"ready"}']
            stop = h.stop if h.stop is not None else len(r.log)
            dn = [i for i, l in enumerate(r.log) if l.startswith("HTTPDONE") and "actor=%s " % a in l]
            if tx and dn and dn[0] < stop and not hs:
                out.fail("health", "a health request before the stop was answered with %s" % (answers.get(a, [])[:1],))
        if not m["http"]:
            # the answer is immediate; the report goes to standard output
            if m["fmt"] != "ansi":
                self.check(out, r, m, h, r.out.decode("utf8", "replace"), r.rc)
            return out
        for a, rs in answers.items():
            rs = [x for x in rs if x[2].strip() != b'{"status":"ready"}']
            for st, hd, body, ok in rs:
                if st == 200 and ok and body:
                    full.append((a, body.decode("utf8", "replace"), hd))
                elif a in waiting and st is not None:
                    out.fail("answer", "client %s waited for the report and got status %s, %s bytes, complete=%s: %r" % (a, st, len(body), ok, body[:200]))
        if out.viol:
            return out
        text = r.out.decode("utf8", "replace")
        if full:
            bodies = {b for _, b, _ in full}
            if len(bodies) > 1:
                out.fail("answer", "clients got different reports")
            if text.strip():
                out.fail("twice", "the report was delivered over HTTP and something was also printed: %r" % text[:200])
            text = full[0][1]
            ct = full[0][2].get("content-type", "")
            if m["fmt"] == "json" and "json" not in ct:
                out.fail("type", "the JSON report has content type %r" % ct)
        elif not text.strip():
            if [n for n, v in kinds.items() if v in ("vanish", "half", "stall")]:
                pass    # taken by a client that did not read it
            else:
                out.fail("lost", "no client received the report and it was not printed either (clients: %s, exit %s)" % (kinds, r.rc))
            text = None
        slow = [v for v in kinds.values() if v in ("slow", "stall", "loris", "half", "vanish")]
        first = [t for t, a in [(int(l.split()[1]), l.split()[2][6:]) for l in r.log if l.startswith("TX ") and l.endswith("tag=stop")] if kinds.get(a) in ("wait", "slow", "chopped", "pipelined", "final")]
        limit = (130 if slow else 70) * S1 + core.thawed(case["sc"]["steps"][0]["plan"])
        if first and h.exit_t - first[0] > limit:
            out.fail("late", "the process ended %.1f s after the first /stop" % ((h.exit_t - first[0]) / 1e9))
        if text is not None and m["fmt"] != "ansi":
            self.check(out, r, m, h, text, r.rc)
        return out

    def check(self, out, r, m, h, text, code):
        try:
            rep = otlp.Report(text, m["fmt"])
        except Exception as e:
            out.fail("noreport", "the report is incomplete (%s): %r" % (e, text[-300:]))
            return
        if rep.stats is None:
            out.fail("noreport", "the report has no statistics")
        for k, msg in otlp.judge_report(rep, m["reqs"], h.guaranteed(), h.sent) + otlp.judge_stats(rep, code):
            out.fail(k, msg)


PROP = C11
