"""C10: the inactivity timeout ends a silent session and never an active one."""
from .. import core, otlp, sim
from .otlpbase import OtlpProp, files, netplan, session

S1 = 10**9


class C10(OtlpProp):
    id = "C10"
    rule = ("seeded live-check or infer session with an inactivity timeout, clients sending at intervals below, around and above the timeout, slow links, wall-clock jumps "
            "and misbehaving peers; the process must not end before a full timeout without activity and must end within two timeouts of the last one; with timeout 0 it "
            "must never end by itself; non-trivial when requests were received")
    assumptions = ["activity is the arrival of a telemetry request; connections, health checks and invalid requests may or may not count"]

    def case(self, rng, tier, idx):
        S = otlp.Script(rng)
        infer = rng.random() < 0.25
        T = rng.choice([1, 1, 2, 3, 10, 60])
        n = rng.choice([1, 1, 2, 3])
        reqs, rid = [], 0
        for c in range(n):
            rs = [otlp.request(rng, rid + k) for k in range(rng.choice([1, 2, 4, 8]))]
            rid += len(rs)
            reqs += rs
            f = rng.choice([0.1, 0.45, 0.9, 0.97, 1.2])
            S.client("c%d" % c, rs, rng.choice(["seq", "pipe", "chop", "reconnect"]), gap=(int(T * f * 1000000 * rng.choice([0.5, 1.0])), int(T * 20000)))
        for k in range(rng.choice([0, 0, 1])):
            S.nuisance("n%d" % k)
        zero = rng.random() < 0.15
        if zero:
            S.stop("sigint", ["c%d" % c for c in range(n)], delay=(rng.choice([1, 300]) * 1000000, 0))
        tmo = "0" if zero else str(T)
        if infer:
            argv = ["registry", "infer", "--output", "out", "--inactivity-timeout", tmo, "--admin-port", str(otlp.ADMIN)]
        else:
            argv = ["registry", "live-check", "-r", "reg", "--format", "json", "--no-stream", "--advice-policies", "adv", "--inactivity-timeout", tmo]
        plan = netplan(rng, S.actors, cap_s=4000)
        plan.pop("partitions", None)
        if rng.random() < 0.5:
            plan["jumps"] = [[rng.randrange(1000, T * 3000000), rng.choice([-3600, -5, -1, 1, 5, 60, 3600, 86400]) * 1000000] for _ in range(rng.choice([1, 2]))]
        return {"sc": {"files": files(rng), "steps": [{"argv": argv, "plan": plan}]},
                "meta": {"reqs": reqs, "where": {str(k): v for k, v in S.where.items()}, "never": [], "T": T, "zero": zero, "infer": infer, "jumps": plan.get("jumps")}}

    def run(self, slot, case):
        out = core.Outcome()
        r = self.exec(slot, case, out)[0]
        if out.skip:
            return out
        m = case["meta"]
        if self.crashed(out, r):
            return out
        h = otlp.History(r, m["where"])
        T = m["T"] * S1
        out.cover = ["T%d%s" % (m["T"], "/never" if m["zero"] else ""), "jump" if m["jumps"] else "steady", "infer" if m["infer"] else "live-check"]
        out.nontrivial = bool(h.ack)
        if h.exit_t is None or h.listen_t is None:
            out.fail("noexit", "the process did not end normally: exit %s" % r.rc)
            return out
        if m["zero"]:
            if h.stop_t is None or h.exit_t < h.stop_t:
                out.fail("early", "the process ended by itself at %.3f s although the inactivity timeout is 0 (never)" % (h.exit_t / 1e9))
            return out
        # every acknowledged request was activity at some moment between its sending and its acknowledgement
        low = max([h.txtime[q] for q in h.ack] + [h.listen_t])
        # requests received (sent and fully delivered) in the 1 ms before the end may be unacknowledged
        if h.exit_t < self.earliest(h, T):
            out.fail("early", "the process ended at %.3f s, before %d s without telemetry (last request acknowledged at %s)" %
                     (h.exit_t / 1e9, m["T"], max(h.acktime.values(), default=0) / 1e9))
        high = max([h.acktime[q] for q in h.ack] + [h.txtime[q] + S1 for q in h.tx if q not in h.ack] + [h.listen_t])
        if h.exit_t > high + 2 * T + S1:
            out.fail("late", "the process ended at %.3f s, more than two timeouts of %d s after the last activity at %.3f s" % (h.exit_t / 1e9, m["T"], high / 1e9))
        return out

    @staticmethod
    def earliest(h, T):
        """No stop may happen before: the latest acknowledged request that was certainly received before the end, plus T.
        A request received after the stop was decided may still be acknowledged, so walk the requests in order of sending:
        one only extends the session when it was sent before the session could have ended."""
        end = h.listen_t + T
        for q in sorted(h.ack, key=lambda q: h.acktime[q]):
            if h.acktime[q] < end:
                end = max(end, h.txtime[q] + T)
        return end


PROP = C10
