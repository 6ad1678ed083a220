#!/usr/bin/env python3
"""python3 tools/replay.py FILE: validate the recorded trace of a replay file again and print what led to the rejected event
and the states of the specification in which it is not allowed."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def main_(path):
    r = json.load(open(path))
    t, n = r["trace"], r["explained_events"]
    print(r["what"])
    if r.get("script"):
        print("script:", json.dumps(r["script"])[:3000])
    print("configuration:", json.dumps(t["cfg"]))
    for i, e in enumerate(t["ev"]):
        print("%s %3d %s" % ("->" if i == n else "  ", i + 1, json.dumps(e)[:300]))
        if i == n:
            break
    how = t.get("how")
    if not how:
        return 0
    d = scratch("replay")
    f = os.path.join(d, "traces.json")
    json.dump([{"cfg": t["cfg"], "ev": t["ev"][:n + 1]}], open(f, "w"))
    # the states after the last explained event, one at a time
    m = os.path.join(d, "Replay.tla")
    open(m, "w").write("---- MODULE Replay ----\nEXTENDS %s\nNotThere == l <= %d\n====\n" % (how["module"], n))
    cfg = os.path.join(d, "Replay.cfg")
    open(cfg, "w").write(cfgtext("TraceSpec", how["consts"], invs=["NotThere"], constraint="TraceConstraint"))
    p = subprocess.run(["java", "-Xmx2g", "-Xss16m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-workers", "1", "-deadlock", "-noGenerateSpecTE",
                        "-config", cfg, "-metadir", os.path.join(d, "meta"), m], cwd=d, env=dict(os.environ, TRACES=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    states = re.findall(r"^State \d+:.*?(?=^State |^\d+ states|\Z)", p.stdout, re.M | re.S)
    print(states[-1] if states else p.stdout[-2000:])
    return 0


if __name__ == "__main__":
    sys.exit(main_(sys.argv[1]))
