import subprocess
HOOKS = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines() if ' hook: ' in l]
"""writes MANIFEST.json from the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = checks.NOTES
out = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "verif (Go build tag)", "enable": "the checks build /repo's tree with 'go build -tags verif -overlay', which makes the restart and tick limits of internal/xo variables and adds the driver (drv/) and two observation files (drv/overlay/); if those do not build, '-tags nohooks' leaves tag and observation files out", "source_commits": HOOKS},
       "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, note = NOTES[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py %s" % i,
                              "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
