#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import importlib, json, os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/mc", V + "/mc/checks"]
NOTE_DEFAULT = ("Every case within the stated bounds is executed on the real library code (clang, AddressSanitizer) and judged "
                "by an oracle independent of it; trusts the Python writer/reader of packages and deltas in mc/, the "
                "compression libraries, librpm and the executor harness/exec.c.")
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True)
         .stdout.splitlines() if "verification hook" in l]
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if not os.path.exists(V + "/mc/checks/%s.py" % p.lower()):
        na.append(dict(property=p, reason="no check built for it yet; the method applies and a check is planned"))
        continue
    m = importlib.import_module(p.lower())
    checks.append(dict(property=p, quick_cmd="python3 mc/main.py %s quick" % p, thorough_cmd="python3 mc/main.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=m.TECH, level=m.LEVEL,
                       level_note=getattr(m, "NOTE", NOTE_DEFAULT)))
M = dict(version=1, setup_cmd="python3 mc/build.py", checks=checks, not_applicable=na,
         hooks=dict(guard="DRPM_VERIF", enable="-DDRPM_VERIF with -DDRPM_VERIF_BLOCK_SIZE=, -DDRPM_VERIF_MAX_CORE_BLOCKS= and "
                    "-DDRPM_VERIF_MAX_OPEN_FILES=, for C16 and its like; all other checks build without it", source_commits=hooks))
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
