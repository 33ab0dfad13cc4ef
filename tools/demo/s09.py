# needs: an input file that can be read only in part
# breaks: live-check of a text file judges the part before the read error and succeeds
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    sc.put("in.txt", b"app.uid\n" * 3 + b"\xff\xfe\n" + b"no.such.attribute\n")
    rc, o, e = sc.run("registry", "live-check", "-r", "reg", "--input-source", "in.txt", "--input-format", "text", "--format", "json", "--no-stream")
    if rc == 0 or "Failed" not in o + e and "rror" not in o + e:
        wd.fail("an unreadable line is accepted: exit %s\n%s" % (rc, (o + e)[-600:]))
    print("ok", rc)
