"""usage: mk.py spec.py [ID...]: spec defines B = {id: dict(prop, needs, breaks, edits=[(file, old, new[, n])], demo)}"""
import sys, os, subprocess, json, shutil, textwrap
spec = {}
exec(open(sys.argv[1]).read(), spec)
B = spec["B"]
ids = sys.argv[2:] or list(B)
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = run("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
for i in ids:
    b = B[i]; d = "/verif/seeded/%s" % i; w = "/tmp/seed/%s" % i
    if os.path.exists(w): shutil.rmtree(w)
    run("cp -a /repo %s" % w)
    bad = False
    for e in b["edits"]:
        f, old, new = e[0], e[1], e[2]; n = e[3] if len(e) > 3 else 1
        s = open(w + "/" + f).read()
        if s.count(old) != n: print(i, "EDIT MISMATCH", f, s.count(old), repr(old[:60])); bad = True; continue
        open(w + "/" + f, "w").write(s.replace(old, new))
    if bad: continue
    diff = run("git -C %s diff" % w).stdout
    # original lines?
    rm = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = {}
    for f in {e[0] for e in b["edits"]}:
        orig[f] = run("git -C /repo show %s:%s" % (base, f)).stdout.splitlines()
    flat = {l for f in orig for l in orig[f]}
    notorig = [l for l in rm if l[1:].strip() and l[1:] not in flat]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(textwrap.dedent(b["demo"]).lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = run("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    r1 = run("bash %s/demo.sh" % d, cwd=w, timeout=300)
    print(i, "demo clean", r0.returncode, "patched", r1.returncode, "| removed lines %d not original %s" % (len(rm), notorig), "" if r0.returncode == 0 else r0.stderr[-600:], r1.stderr[-200:].replace("\n", " "), flush=True)
