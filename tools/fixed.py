"""Write known-findings.txt: the findings below, and a fixed: line per fix commit of /repo."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    ("C19", "bininit", "aiger.WriteBinary writes a latch's constant initial value inverted (0 as 1 and 1 as 0); the existing "
     "test TestWriteBinary demands the inverted text, so it cannot be repaired without changing that test"),
    ("C25", "py2triples", "gen.Py2Triples(n) states the constraints of the first n triples ordered by their second and then first "
     "element instead of those of the triples in [1..n]; with the right triples the existing test TestPy2Triples(7000) does not end "
     "within the ten minutes go test allows, so it cannot be repaired without changing that test"),
]
FIXED = {}
for l in open(os.path.join(V, "tools", "fixed.txt")):
    l = l.rstrip("\n")
    if l:
        prop, subj, what = l.split("|", 2)
        FIXED[subj] = (prop, what)
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
with open(os.path.join(V, "known-findings.txt"), "w") as f:
    f.write("# Genuine defects of go-air/gini.  'finding:' lines are unrepaired and reported as KNOWN-FINDING;\n"
            "# 'fixed:' lines are repaired in /repo and suppress nothing.\n")
    for prop, fid, what in FINDINGS:
        f.write("finding: property=%s id=%s %s\n" % (prop, fid, what))
    for l in out.splitlines():
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            s = s[5:]
            if s not in FIXED:
                print("no entry for", s)
                continue
            f.write("fixed: property=%s %s %s\n" % (FIXED[s][0], h, FIXED[s][1]))
