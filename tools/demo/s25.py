# needs: a folder below the advice data that cannot be read
# breaks: the data in it is left out without an error, and live-check judges with the rest
import json, subprocess, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import wd
C = r'''
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
/* fails to open folders named "broken" */
DIR *opendir(const char *p) {
    size_t n = strlen(p);
    if (n >= 6 && !strcmp(p + n - 6, "broken")) { errno = EIO; return 0; }
    return ((DIR *(*)(const char *))dlsym(RTLD_NEXT, "opendir"))(p);
}
'''
with wd.Scratch() as sc:
    sc.put("d.c", C)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", sc.dir + "/d.so", sc.dir + "/d.c", "-ldl"], check=True)
    sc.put("dat/a.json", "{}")
    sc.put("dat/broken/b.json", "{}")
    sc.put("in.txt", "app.uid\n")
    for name, bad in (("dat/nothing", 0), ("dat", 1)):
        sc.put("dat/nothing/x.json", "{}")
        rc, o, e = sc.run("registry", "live-check", "-r", "reg", "--input-source", "in.txt", "--input-format", "text", "--format", "json", "--fail-on", "none", "--advice-data", name,
                          env={"LD_PRELOAD": sc.dir + "/d.so"})
        if (rc != 0) != bool(bad):
            wd.fail("%s: exit %s %s" % (name, rc, (o + e)[-600:]))
    print("ok")
