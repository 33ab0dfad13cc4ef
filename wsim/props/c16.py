"""C16: a credential is sent to the host it was configured for, and nowhere else."""
import json
import random

from .. import core, remote, sim
from .c15 import C15

HOP = "/hop"


def host_of(url):
    return url.split("://", 1)[1].split("/", 1)[0].split(":")[0]


def matches(url, prefix):
    if not url.startswith(prefix):
        return False
    rest = url[len(prefix):]
    host = prefix.split("://", 1)[1] if "://" in prefix else ""
    return not host or any(c in host for c in "/?#") or rest == "" or rest[0] in "/?#"


class C16(C15):
    id = "C16"
    quick_s = 30
    rule = ("seeded command with remote inputs on several hosts (look-alike names, redirects within and across hosts, failing servers) and seeded [[auth]] rules (overlapping, partial, look-alike and "
            "unrelated prefixes, literal tokens, set, empty and missing environment variables, helper commands that work or fail), under seeded deliveries; every request the servers received is checked against a model of "
            "which token belongs to which request, and output, diagnostics and files are searched for tokens; non-trivial when a rule matched a requested URL")
    assumptions = ["plain HTTP only: TLS and the GitHub release API are not simulated", "helper commands run for real, and take no simulated time",
                   "a redirect to another port or path of the same host name may keep the header, as documented"]
    k = 3

    def case(self, rng, tier, idx):
        case = C15.case(self, rng, tier, idx)
        m = case["meta"]
        self.files = case["sc"]["files"]
        urls = ["http://%s:%d%s" % (h, remote.PORT, p) for h, p, _ in m["web"]] or ["http://reg.test:8080/p/1.0/manifest.yaml"]
        rules, env = [], {}
        for i in range(rng.choice([1, 1, 2, 3, 5])):
            u = rng.choice(urls)
            h = host_of(u)
            cut = rng.randrange(len("http://") + 1, len(u) + 1)
            prefix = rng.choice(["http://%s:%d/" % (h, remote.PORT), "http://%s:%d" % (h, remote.PORT), "http://%s:%d/x/" % (h, remote.PORT), u, u[:cut], u[:cut], u.rsplit("/", 1)[0], "http://%s" % h,
                                 "http://cdn.test:8080/", "http://reg.test.evil.test:8080", "https://%s:%d/" % (h, remote.PORT), "http://other.test/", "http://", "http://%s:80" % h, "http://reg.te"])
            if any(r[0] == prefix for r in rules):
                continue
            tok = "tok%dSECRET%05d" % (i, rng.randrange(100000))
            kind = rng.choice(["token", "token", "env", "env", "unset", "empty", "command", "command", "command", "nocommand"])
            rules.append([prefix, kind, tok])
            if kind in ("env", "empty"):
                env["WSIM_TOKEN_%d" % i] = tok if kind == "env" else ""
        toml = ""
        for i, (p, kind, tok) in enumerate(rules):
            toml += '[[auth]]\nurl_prefix = "%s"\n' % p
            if kind in ("command", "nocommand"):
                toml += "token_command = %s\n" % json.dumps(self.helper(rng, tok, kind == "command"))
            else:
                toml += 'token = "%s"\n' % tok if kind == "token" else 'token_env = "%s"\n' % next((k for k, v in env.items() if v == tok), "WSIM_TOKEN_%d" % (90 + i if kind == "unset" else i))
            toml += 'name = "r%d"\n' % i if rng.random() < 0.3 else ""
        # an empty variable is found by its index
        names = {}
        for i, (p, kind, tok) in enumerate(rules):
            names[p] = {"token": tok, "env": tok, "command": tok}.get(kind)
        case["sc"]["files"][".weaver.toml"] = toml
        m["auth"] = [[p, names[p]] for p, _, _ in rules]
        m["tokens"] = [r[2] for r in rules]
        if rng.random() < 0.5:
            for st in case["sc"]["steps"]:
                st["argv"] = ["--debug"] + st["argv"]
        for st in case["sc"]["steps"]:
            st["env"] = env
        return case

    def helper(self, rng, tok, works):
        """A command that prints the token, or one that fails to."""
        f = "tok/" + tok[:4]
        self.files[f] = tok
        if works:
            return rng.choice([["cat", f], ["head", "-c", "100", f], ["sh", "-c", "echo \"  $(cat %s)  \"; echo second" % f], ["sh", "-c", "echo note >&2; cat %s; printf '\\r\\n'" % f]])
        return rng.choice([["false"], ["sh", "-c", "cat %s; exit 3" % f], ["true"], ["no-such-helper"], ["sh", "-c", "echo; cat %s" % f], ["sh", "-c", "kill -9 $$"]])

    def want(self, m, url):
        best = None
        for p, tok in m["auth"]:
            if matches(url, p) and (best is None or len(p) > len(best[0])):
                best = (p, tok)
        return best

    def run(self, slot, case):
        out = core.Outcome()
        bad = self.prepare(slot, case)
        if bad:
            out.skip = "internal" if bad == "ref" else None
            out.nontrivial = False
            out.cover = [bad]
            return out
        rs = self.exec(slot, case, out)
        if out.skip:
            return out
        m = case["meta"]
        names = {h.replace(".", "_"): h for h in remote.HOSTS}
        out.nontrivial = False
        sent = 0
        for st, r in zip(case["sc"]["steps"], rs):
            for (actor, conn), parts in sim.rx_bytes(r.log).items():
                data = b"".join(b for _, b in parts)
                for head in data.split(b"\r\n\r\n")[:-1]:
                    lines = head.decode("latin1").split("\r\n")
                    path = lines[0].split(" ")[1] if " " in lines[0] else ""
                    auth = [l.split(":", 1)[1].strip() for l in lines[1:] if l.lower().startswith("authorization:")]
                    hosts = [l.split(":", 1)[1].strip() for l in lines[1:] if l.lower().startswith("host:")]
                    host = names[actor]
                    url = "http://%s:%d%s" % (host, remote.PORT, path)
                    if hosts != ["%s:%d" % (host, remote.PORT)]:
                        out.fail("host", "a request to %s names the host %s" % (host, hosts))
                    leaked = [t for t in m["tokens"] if t in head.decode("latin1") and "Bearer " + t not in auth]
                    if leaked or len(auth) > 1:
                        out.fail("leak", "the token is not in the Authorization header alone: %s" % lines)
                    direct = [d for d in m["web"] if d[0] == host and d[1] == path]
                    if direct:
                        w = self.want(m, url)
                        out.nontrivial = out.nontrivial or w is not None
                        exp = ["Bearer " + w[1]] if w and w[1] else []
                        # the target of a redirect may be a configured URL of the same host as well
                        if auth != exp:
                            out.fail("wrong" if auth else "missing", "%s was requested with %s, the rules %s give %s" % (url, auth, m["auth"], exp))
                        sent += bool(auth)
                        continue
                    # a redirect: the path ends with the one first asked for
                    src = [d for d in m["web"] if path.endswith(d[1])] or m["web"]
                    ok = set()
                    for d in src:
                        w = self.want(m, "http://%s:%d%s" % (d[0], remote.PORT, d[1]))
                        if w and w[1] and d[0] == host:
                            ok.add("Bearer " + w[1])
                    if auth and auth[0] not in ok:
                        out.fail("leak", "the redirect to %s was requested with %s; rules %s" % (url, auth, m["auth"]))
                    out.cover.append("redirect:" + ("auth" if auth else "bare"))
            for t in m["tokens"]:
                b = t.encode()
                if b in r.out or b in r.err:
                    out.fail("printed", "the token %s is printed: %s" % (t, (r.out + r.err)[max(0, (r.out + r.err).find(b) - 300):][:600]))
                for f, c in (r.files or {}).items():
                    if f != ".weaver.toml" and not f.startswith("tok/") and b in c:
                        out.fail("stored", "the token %s was written to %s" % (t, f))
            if out.viol:
                out.viol = [(k, "%s: %s" % (st.get("kind", "healthy"), v)) for k, v in out.viol[:1]]
                return out
        out.cover += ["%s/exit%s" % (m["cmd"], rs[0].rc), "sent" if sent else "none sent"]
        return out

    def describe(self, case):
        return dict(C15.describe(self, case), auth=case["meta"]["auth"])


PROP = C16
