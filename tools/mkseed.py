#!/usr/bin/env python3
"""mkseed.py <id> <property>: takes the diff of /tmp/sb (a scratch copy of /repo) and tools/demo/<id>.py into seeded/<id>/.
Meta text is read from tools/demo/<id>.py's first two comment lines (# needs: / # breaks:)."""
import json
import os
import shutil
import subprocess
import sys

sid, prop = sys.argv[1], sys.argv[2]
src = sys.argv[3] if len(sys.argv) > 3 else "/tmp/sb"
V = "/verif"
d = V + "/seeded/" + sid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", src, "diff"], stdout=subprocess.PIPE, check=True).stdout
assert diff
open(d + "/patch.diff", "wb").write(diff)
L = open(V + "/tools/demo/%s.py" % sid).read().split("\n")
needs = [l[8:].strip() for l in L if l.startswith("# needs:")][0]
breaks = [l[9:].strip() for l in L if l.startswith("# breaks:")][0]
shutil.copy(V + "/tools/demo/%s.py" % sid, d + "/demo.py")
shutil.copy(V + "/tools/demo/wd.py", d + "/wd.py")
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 280 python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
print(sid, len(diff))
