#!/usr/bin/env python3
"""Run the check of each planted bug's property (or --all checks) against a scratch tree with the bug; prints caught/missed."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i); m = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="rs", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"]); subprocess.check_call(["git", "-C", w + "/r", "apply", d + "/patch.diff"])
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", m["property"]], cwd=V, env=dict(os.environ, VERIF_REPO=w + "/r", VERIF_BUILD=w + "/b"), capture_output=True, text=True)
        o = [l for l in r.stdout.splitlines() if l.strip()]
        print("%-26s %s rc=%d %.0fs %s" % (i, m["property"], r.returncode, time.time() - t, " / ".join(o)[:260] + r.stderr[-200:]), flush=True)
    finally: shutil.rmtree(w)
