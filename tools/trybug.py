#!/usr/bin/env python3
"""Development: trybug.py SEED.. runs the check of each planted bug's property on a private copy of /repo with the bug applied."""
import os, subprocess, sys, json, re, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/bugrepo"
for n in sys.argv[1:]:
    n, _, prop = n.partition(":")
    d = V + "/seeded/" + n
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    subprocess.run("rm -rf /tmp/bugrepo && mkdir -p /tmp/bugrepo && git -C /repo archive HEAD | tar x -C /tmp/bugrepo && cd /tmp/bugrepo && git init -q . && git apply %s/patch.diff" % d, shell=True, check=True)
    t = time.time()
    env = dict(os.environ, INKSYM_BUILD="/tmp/bugbuild", INKSYM_REPLAY="/tmp/bugreplay", INKSYM_EVIDENCE="/tmp/bugevidence")
    r = subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && cd %s && python3 check.py %s quick" % (W, V, prop)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-28s %s exit=%d violations=%d %.0fs" % (n, prop, r.returncode, len(v), time.time() - t), flush=True)
    for l in [l for l in r.stdout.splitlines() if "[native" in l or l.startswith("PROBLEM")][:3]: print("      " + l[:220], flush=True)
