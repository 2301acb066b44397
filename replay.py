#!/usr/bin/env python3
"""replay.py <evidence/replay_...>: runs the saved history again on /repo's current tree and prints what the contract rejects"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner, build
d = sys.argv[1]; info = json.load(open(os.path.join(d, "info.json")))
class G: pass
g = G(); g.id, g.variant = info["group"], info["variant"]; g.text = lambda: open(os.path.join(d, "scenario.txt")).read(); g.scen = []
bins = build.build([g.variant], [info["prog"]])
bad = 0
for i in range(4):
    r = runner.run_chunk(0, [g], bins, [info["property"]], 120, module=info["module"], keep=True, prog=info["prog"])
    if 0 not in r["done"]:
        bad = 1; print("rejected; failing rules (line, rule): %s" % sorted({(b, n) for _, b, n in r["rules"]}))
        print(r["trace"].splitlines()[-1][:400]); print(r.get("asan", "")); break
else: print("accepted")
sys.exit(bad)
