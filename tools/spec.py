#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, note=None, technique=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None},
                  _level=level, _note=note, _technique=technique, _na=na))


SIM = "deterministic simulation: the real weaver binary under a seeded thread/clock/entropy/disk/network simulator"
TRUST = (" Trusts the simulator (threads are serialised and preempted at synchronisation, system calls and sampled allocations), the seeded generators and the oracle; "
         "a bounded seeded sample, not all executions.")

exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
    for p in P:
        if p["_na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                                "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                                "technique": p["_technique"] or SIM, "level": p["_level"], "level_note": p["_note"] + TRUST})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
