import subprocess
m="""c6d0193 (C01); d20638a (C02,C04); b47667f (C02,C03); 0877416 (C04); a10a5ab (C05); 7775f58 (C05); 1fdb677 (C05,C13); ee20b87 (C08); 99c4d8b (C08); c81314f (C08); 5199803 (C03,C06); d95b8ba (C07); c80df6a (C12); eccd7dd (C04); 8ac29cb (C14); e57151f (C14); 67af37c (C15); 6d266ff (C15); bfb380c (C18); 04d3b12 (C17); 52be515 (C17); ea74c58 (C19); 271f2aa (C19); 300c4b8 (C20); a2e3b78 (C20); 7aa6d59 (C20); 813bf96 (C19); f78b335 (C03,C13); 896bc0e (C22); c34b29f (C21); 701f049 (C21,C03); 56d3d67 (C21); a6e8d51 (C21); f8ad01b (C21); b76ffc7 (C09); 47181a5 (C09); 2ed2b93 (C10,C09); 3569cad (C03); 2514625 (C24); 857f027 (C24); 302b9b6 (C24); 32cc849 (C24); 3d3d7d0 (C23); a615b1d (C14); bf6407a (C24); 22a9a5b (C21); a19077a (C22); 47d8ba1 (C22)"""
mp={}
for x in m.split("; "):
    h,p=x.split(); mp[h]=p.strip("()").split(",")
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=["# Genuine defects of cqcl/qermit found by the checks. 'fixed' entries suppress nothing.",
"# 'finding: property=<id> key=<key> <text>' entries would be reported as KNOWN-FINDING; there are none: every defect found was repaired.",""]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    ps=mp.get(h) or ["C24"]
    for p in ps:
        out.append("fixed: property=%s %s %s"%(p,h,s[5:]))
open('/verif/known_findings.txt','w').write("\n".join(out)+"\n")
