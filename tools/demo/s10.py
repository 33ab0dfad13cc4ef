# needs: a kill while an archive is extracted, and a later process with the same process id (containers always start with the same one)
# breaks: the temporary folder left behind makes every later run fail
import json, os, sys, tarfile, io
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
with wd.Scratch() as sc:
    so = wd.preload(sc)
    with tarfile.open(sc.dir + "/reg.tar.gz", "w:gz") as t:
        for n in ("manifest.yaml", "a.yaml"):
            b = sc.get("reg/" + n)
            ti = tarfile.TarInfo("top/" + n)
            ti.size = len(b)
            t.addfile(ti, io.BytesIO(b))
    run = lambda **k: sc.run("registry", "check", "-r", "reg.tar.gz", "--skip-policies", env=dict(k, LD_PRELOAD=so, FIX_PID="1"))
    rc, o, e = run()
    if rc:
        wd.fail("exit %s %s" % (rc, (o + e)[-500:]))
    kills = 0
    for k in range(1, 8):
        r1, _, _ = run(KILL_AT=str(k))
        kills += r1 == -9
        r2, o, e = run()
        if r2:
            wd.fail("killed at file creation %d, the next run fails: exit %s %s" % (k, r2, (o + e)[-500:]))
    if not kills:
        wd.fail("no kill")
    print("ok", kills)
