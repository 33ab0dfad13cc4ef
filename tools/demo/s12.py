# needs: a server that breaks off a chunked response, and a file (policy, manifest) whose beginning is valid on its own
# breaks: the part of a remote policy received before the connection broke is used as if it was complete, so violations are not reported
import socket, sys, threading
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
REGO = """package after_resolution

import rego.v1

deny contains r if {
\tfalse
\tr := {"id": "none", "type": "semconv_attribute", "category": "x", "group": "g", "attr": "a"}
}
"""
REST = """
deny contains r if {
\tsome g in input.groups
\tr := {"id": "found", "type": "semconv_attribute", "category": "x", "group": g.id, "attr": "a"}
}
"""
def serve(s, full):
    while True:
        c, _ = s.accept()
        c.recv(65536)
        c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n" % len(REGO) + REGO.encode() + b"\r\n")
        if full:
            c.sendall(b"%x\r\n" % len(REST) + REST.encode() + b"\r\n0\r\n\r\n")
        c.close()
def run(sc, full):
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    s.listen(8)
    threading.Thread(target=serve, args=(s, full), daemon=True).start()
    return sc.run("registry", "check", "-r", "reg", "-p", "http://127.0.0.1:%d/p/policy.rego" % s.getsockname()[1])
with wd.Scratch() as sc:
    rc, o, e = run(sc, True)
    if rc == 0 or "found" not in o + e:
        wd.fail("the complete policy finds nothing: exit %s %s" % (rc, (o + e)[-800:]))
    rc, o, e = run(sc, False)
    if rc == 0:
        wd.fail("half of the policy was used: exit 0 %s" % (o + e)[-800:])
    print("ok", rc, (o + e)[-200:])
