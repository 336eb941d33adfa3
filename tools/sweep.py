#!/usr/bin/env python3
"""usage: tools/sweep.py [--tier T] [--props C01,C02] SEED...
Runs the checks and tabulates outcome, time and, per facet, events observed next to the counts needed."""
import argparse, json, os, subprocess, sys, time, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = argparse.ArgumentParser()
a.add_argument("--tier", default="quick"); a.add_argument("--props", default=""); a.add_argument("seeds", nargs="+")
a = a.parse_args()
props = a.props.split(",") if a.props else ["C%02d" % i for i in range(1, 60) if os.path.exists(ROOT + "/harness/props/c%02d.py" % i)]
low = {}
for p in props:
    for s in a.seeds:
        t = time.time()
        r = subprocess.run([ROOT + "/check", p, "--tier", a.tier, "--seed", s], capture_output=True, text=True, cwd=ROOT)
        ev = json.load(open(ROOT + "/evidence/%s.json" % p))
        print(p, "seed", s, "rc", r.returncode, "%.0fs" % (time.time() - t), "" if r.returncode == 0 else r.stdout[-700:] + r.stderr[-300:], flush=True)
        for f, d in ev["coverage"]["facets"].items():
            m = low.setdefault((p, f), {})
            m.setdefault("_cases", []).append(d["cases"]); m.setdefault("_cpu", []).append(d["cpu_s"])
            for k, n in d["events"].items():
                m.setdefault(k, []).append(n)
json.dump({"%s/%s" % k: v for k, v in low.items()}, open("/tmp/sweep_%s.json" % a.tier, "w"), indent=1)
