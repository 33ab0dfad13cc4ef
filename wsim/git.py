"""Git repositories and what a server of the smart HTTP protocol (version 2) answers for them."""
import hashlib
import zlib

TYPES = {"commit": 1, "tree": 2, "blob": 3, "tag": 4}
WHO = b"A U Thor <a@example.test> 1700000000 +0000"


def pkt(b):
    if isinstance(b, str):
        b = b.encode()
    return b"%04x" % (len(b) + 4) + b


FLUSH, DELIM = b"0000", b"0001"


class Repo:
    def __init__(self):
        self.objs = {}      # id -> (type, data)
        self.refs = {}      # name -> id
        self.peeled = {}    # tag name -> commit
        self.head = "refs/heads/main"

    def put(self, kind, data):
        i = hashlib.sha1(b"%s %d\0" % (kind.encode(), len(data)) + data).hexdigest()
        self.objs[i] = (kind, data)
        return i

    def tree(self, files):
        """files: {path: bytes | ("link", target) | ("exec", bytes)}"""
        here, sub = [], {}
        for p, v in files.items():
            if "/" in p:
                d, r = p.split("/", 1)
                sub.setdefault(d, {})[r] = v
            elif isinstance(v, tuple):
                here.append((p, b"120000" if v[0] == "link" else b"100755", self.put("blob", v[1])))
            else:
                here.append((p, b"100644", self.put("blob", v)))
        ent = [(n.encode(), m, i) for n, m, i in here] + [(d.encode() + b"/", b"40000", self.tree(f)) for d, f in sub.items()]
        return self.put("tree", b"".join(m + b" " + n.rstrip(b"/") + b"\0" + bytes.fromhex(i) for n, m, i in sorted(ent)))

    def rawtree(self, entries):
        """entries: [(mode, name, id)] as they are"""
        return self.put("tree", b"".join(m + b" " + n + b"\0" + bytes.fromhex(i) for m, n, i in entries))

    def entries(self, tree):
        data, k, res = self.objs[tree][1], 0, []
        while k < len(data):
            z = data.index(b"\0", k)
            m, n = data[k:z].split(b" ", 1)
            res.append((m, n, data[z + 1:z + 21].hex()))
            k = z + 21
        return res

    def commit(self, files, parents=(), msg="change", tree=None):
        return self.put("commit", b"tree %s\n" % (tree or self.tree(files)).encode() + b"".join(b"parent %s\n" % p.encode() for p in parents)
                        + b"author %s\ncommitter %s\n\n%s\n" % (WHO, WHO, msg.encode()))

    def branch(self, name, commit):
        self.refs["refs/heads/" + name] = commit

    def tag(self, name, commit, annotated=False):
        n = "refs/tags/" + name
        self.refs[n] = commit
        if annotated:
            self.refs[n] = self.put("tag", b"object %s\ntype commit\ntag %s\ntagger %s\n\nnote\n" % (commit.encode(), name.encode(), WHO))
            self.peeled[n] = commit

    # ---- what is sent
    def reach(self, i, depth=None, seen=None):
        seen = {} if seen is None else seen
        todo = [(i, depth)]
        while todo:
            i, d = todo.pop()
            if i in seen:
                continue
            seen[i] = 1
            kind, data = self.objs[i]
            if kind == "tag":
                todo.append((data.split(b"\n")[0][7:].decode(), d))
            elif kind == "commit":
                for l in data.split(b"\n\n")[0].split(b"\n"):
                    if l.startswith(b"tree "):
                        todo.append((l[5:].decode(), d))
                    elif l.startswith(b"parent ") and (d is None or d > 1):
                        todo.append((l[7:].decode(), None if d is None else d - 1))
            elif kind == "tree":
                k = 0
                while k < len(data):
                    z = data.index(b"\0", k)
                    if not data.startswith(b"160000 ", k):     # the commit of a submodule is elsewhere
                        todo.append((data[z + 1:z + 21].hex(), d))
                    k = z + 21
        return list(seen)

    def pack(self, ids, level=6):
        b = b"PACK" + (2).to_bytes(4, "big") + len(ids).to_bytes(4, "big")
        for i in ids:
            kind, data = self.objs[i]
            n = len(data)
            c = TYPES[kind] << 4 | n & 15
            n >>= 4
            while n:
                b += bytes([c | 128])
                c = n & 127
                n >>= 7
            b += bytes([c]) + zlib.compress(data, level)
        return b + hashlib.sha1(b).digest()

    def info(self):
        return pkt("# service=git-upload-pack\n") + FLUSH + pkt("version 2\n") + pkt("agent=git/2.43.0\n") + pkt("ls-refs=unborn\n") \
            + pkt("fetch=shallow wait-for-done\n") + pkt("server-option\n") + pkt("object-format=sha1\n") + FLUSH

    def ls_refs(self):
        b = b""
        if self.head in self.refs:
            b += pkt("%s HEAD symref-target:%s\n" % (self.refs[self.head], self.head))
        for n, i in sorted(self.refs.items()):
            b += pkt("%s %s%s\n" % (i, n, " peeled:" + self.peeled[n] if n in self.peeled else ""))
        return b + FLUSH

    def fetch(self, shallow=False, chunk=65000, progress=False, level=6, skip=None):
        tips = [self.refs[self.head]] if shallow else sorted(set(self.refs.values()))
        seen = {}
        for t in tips:
            self.reach(t, 1 if shallow else None, seen)
        b = b""
        if shallow:
            parents = [t for t in tips if b"\nparent " in self.objs[t][1]]
            b += pkt("shallow-info\n") + b"".join(pkt("shallow %s" % t) for t in parents) + DELIM
        b += pkt("packfile\n")
        p = self.pack([i for i in seen if i != skip], level)
        if progress:
            b += pkt(b"\2Enumerating objects: %d, done.\n" % len(seen))
        for k in range(0, len(p), chunk):
            b += pkt(b"\1" + p[k:k + chunk])
        return b + FLUSH

    def answers(self, path, **kw):
        """[(path, part of the request's body, content type, body of the answer)]"""
        c = "application/x-git-upload-pack-%s"
        return [(path + "/info/refs?service=git-upload-pack", "-", c % "advertisement", self.info()), (path + "/git-upload-pack", "command=ls-refs", c % "result", self.ls_refs()),
                (path + "/git-upload-pack", "deepen", c % "result", self.fetch(True, **kw)), (path + "/git-upload-pack", "command=fetch", c % "result", self.fetch(False, **kw))]
