# needs: a file that differs from its update only in the line break at its end
# breaks: the dry run accepts the file although an update would change it
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    sc.put("templates/t/snippet.md.j2", "generated\n")
    sc.put("templates/t/weaver.yaml", json.dumps({"templates": []}))
    cmd = lambda *a: sc.run("registry", "update-markdown", "-r", "reg", "-t", "templates", "--target", "t", *a, "docs")
    for text in ("intro\nlast line without a line break", "intro\nlast line\n"):
        sc.put("docs/a.md", text)
        dry, o, e = cmd("--dry-run")
        rc, o2, e2 = cmd()
        if rc:
            wd.fail("exit %s %s" % (rc, (o2 + e2)[-600:]))
        changed = sc.get("docs/a.md").decode() != text
        if changed != (dry != 0):
            wd.fail("%r: dry run exits %s, the update %s" % (text, dry, "changes the file" if changed else "changes nothing"))
    print("ok")
