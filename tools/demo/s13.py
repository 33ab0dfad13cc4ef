# needs: a .tar.gz archive that is damaged or cut, or a read error, between two of its entries
# breaks: the entries up to there are used as if they were the whole archive, and the command succeeds
import gzip, io, json, sys, tarfile
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    raw = io.BytesIO()
    ends = []
    with tarfile.open(fileobj=raw, mode="w", format=tarfile.USTAR_FORMAT) as t:
        def add(n, b):
            i = tarfile.TarInfo("top/" + n)
            i.size = len(b)
            t.addfile(i, io.BytesIO(b))
            ends.append(raw.tell())
        add("manifest.yaml", sc.get("reg/manifest.yaml"))
        add("a.yaml", sc.get("reg/a.yaml"))
        bad = [{"id": "span.b", "type": "span", "span_kind": "client", "brief": "b", "stability": "stable", "attributes": [{"ref": "no.such.attribute"}]}]
        add("z.yaml", json.dumps({"groups": bad}).encode())
    b = raw.getvalue()
    whole = gzip.compress(b, 0, mtime=0)
    sc.put("whole.tar.gz", whole)
    damaged = bytearray(b)
    damaged[ends[1] + 148:ends[1] + 156] = b"99999999"      # the checksum of the last header
    sc.put("damaged.tar.gz", gzip.compress(bytes(damaged), mtime=0))
    rcs = [sc.run("registry", "check", "-r", n)[0] for n in ("whole.tar.gz", "damaged.tar.gz")]
    if rcs != [1, 1]:
        wd.fail("exit codes %s" % rcs)
    print("ok", rcs)
