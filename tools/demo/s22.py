# needs: a kill between two writes of the same generated file (larger than 4096 bytes), then a second run
# breaks: the second run takes the file for up to date; it ends in zeros
import json, shutil, subprocess, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
C = r'''
#define _GNU_SOURCE
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
/* kills the process before the KILL_AT-th write to a file named big.txt */
static int n;
ssize_t write(int fd, const void *b, size_t c) {
    const char *k = getenv("KILL_AT");
    char l[64], p[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(l, p, sizeof p - 1);
    if (k && r > 0) { p[r] = 0; if (strstr(p, "big.txt") && ++n == atoi(k)) syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); }
    return syscall(SYS_write, fd, b, c);
}
'''
with wd.Scratch() as sc:
    sc.put("w.c", C)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", sc.dir + "/w.so", sc.dir + "/w.c"], check=True)
    sc.put("templates/tgt/weaver.yaml", json.dumps({"templates": [{"template": "big.txt.j2", "filter": ".", "application_mode": "single"}]}))
    sc.put("templates/tgt/big.txt.j2", "{% for i in range(3000) %}line {{ i }}\n{% endfor %}")
    run = lambda **k: sc.run("registry", "generate", "-r", "reg", "-t", "templates", "--skip-policies", "tgt", "out", env=dict(k, LD_PRELOAD=sc.dir + "/w.so"))
    want = "".join("line %d\n" % i for i in range(3000)).encode()
    for k in (1, 2, 3):
        shutil.rmtree(sc.dir + "/out", ignore_errors=True)
        run(KILL_AT=str(k))
        rc, o, e = run()
        got = sc.get("out/big.txt")
        if rc or got.rstrip() != want.rstrip():
            wd.fail("killed at write %d and run again: exit %s, %d bytes, %d of them zero" % (k, rc, len(got), got.count(b"\0")))
    print("ok")
