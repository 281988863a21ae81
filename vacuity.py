#!/usr/bin/env python3
"""vacuity.py [UNIT..]: every contracted function is verified once more with `assert(false)` at its start and at its end;
a function for which that is accepted has contradictory contracts (or can't return). Development aid, not a check."""
import json, os, subprocess, sys, tempfile
from units import UNITS
HERE = os.path.dirname(os.path.abspath(__file__))
units = sys.argv[1:] or sorted({u for us in UNITS.values() for k, u, _ in us if k == "verus"})
opts = {u: o for us in UNITS.values() for _, u, o in us}
for u in units:
    for where in ("start", "end"):
        with tempfile.TemporaryDirectory() as d:
            rs, js = d + "/x.rs", d + "/x.json"
            env = dict(os.environ, VX_VACUITY=where)
            subprocess.run([HERE + "/vx/target/debug/vx", HERE + "/verus/%s.vx" % u, "/repo/src", rs, js], env=env, check=True)
            p = subprocess.run(["verus", rs, "--error-format=json", "--triggers-mode", "silent", "--multiple-errors", "20"] + opts.get(u, []), capture_output=True, text=True, cwd=d)
            info = json.load(open(js))
            lines = open(rs).read().splitlines()
            hit = set()
            for l in p.stderr.splitlines():
                if not l.startswith("{"):
                    continue
                m = json.loads(l)
                for s in m.get("spans", []):
                    for f in info["functions"]:
                        if f["start"] <= s["line_start"] <= f["end"]:
                            hit.add(f["start"])
            vac = [f["name"] for f in info["functions"] if f["start"] not in hit and not f.get("assumed")]
            print(u, where, "vacuous:" if vac else "ok", *vac)
