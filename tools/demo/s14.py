# needs: two [[auth]] rules whose token commands are the same program with different arguments, both used in one run
# breaks: the second host receives the token that was meant for the first
import http.server, io, sys, threading, zipfile
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
POL = "package before_resolution\n\nimport rego.v1\n\ndeny contains x if {\n    false\n    x := 1\n}\n"
with wd.Scratch() as sc:
    def arch(d):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as z:
            for n, t in d.items():
                z.writestr("top/" + n, t)
        return b.getvalue()
    def serve(body):
        got = []
        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                got.append(self.headers.get("Authorization"))
                self.send_response(200)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)
            def log_message(self, *a):
                pass
        s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        threading.Thread(target=s.serve_forever, daemon=True).start()
        return s.server_address[1], got
    p1, g1 = serve(arch({n: sc.get("reg/" + n) for n in ("manifest.yaml", "a.yaml")}))
    p2, g2 = serve(arch({"p.rego": POL}))
    sc.put("t1", "token-one")
    sc.put("t2", "token-two")
    sc.put(".weaver.toml", "".join('[[auth]]\nurl_prefix = "http://127.0.0.1:%d/"\ntoken_command = ["cat", "%s"]\n' % (p, sc.dir + "/" + t) for p, t in ((p1, "t1"), (p2, "t2"))))
    rc, out, err = sc.run("registry", "check", "-r", "http://127.0.0.1:%d/r.zip" % p1, "-p", "http://127.0.0.1:%d/p.zip" % p2)
    if not g1 or not g2:
        wd.fail("not fetched: %s %s" % (out, err))
    if set(g1) != {"Bearer token-one"} or set(g2) != {"Bearer token-two"}:
        wd.fail("the first host received %s, the second %s" % (g1, g2))
    print("ok", rc)
