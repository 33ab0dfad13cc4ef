# needs: a file whose name contains ".md" without being a markdown file
# breaks: update-markdown rewrites files that are not markdown
import json, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    g = [{"id": "span.app.s", "type": "span", "span_kind": "client", "brief": "b", "stability": "stable", "attributes": [{"ref": "app.uid"}]}]
    sc.put("reg/spans.yaml", json.dumps({"groups": g}))
    sc.put("templates/t/snippet.md.j2", "generated\n")
    sc.put("templates/t/weaver.yaml", json.dumps({"templates": []}))
    text = "intro\n<!-- semconv span.app.s -->\nold\n<!-- endsemconv -->\n"
    for n in ("a.md", "a.md.orig", "b.mdx", "c.txt"):
        sc.put("docs/" + n, text)
    rc, o, e = sc.run("registry", "update-markdown", "-r", "reg", "-t", "templates", "--target", "t", "docs", "--skip-policies")
    if rc or b"generated" not in sc.get("docs/a.md"):
        rc, o, e = sc.run("registry", "update-markdown", "-r", "reg", "-t", "templates", "--target", "t", "docs")
    if b"generated" not in sc.get("docs/a.md"):
        wd.fail("exit %s %s" % (rc, (o + e)[-600:]))
    for n in ("a.md.orig", "b.mdx", "c.txt"):
        if sc.get("docs/" + n).decode() != text:
            wd.fail("docs/%s was changed" % n)
    print("ok")
