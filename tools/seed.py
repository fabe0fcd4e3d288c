#!/usr/bin/env python3
"""Makes and confirms planted bugs: seed.py NAME.. (definitions in seeds.py); writes seeded/<id>/ after confirming
that the change builds, passes the stable tests, and that its demonstration fails with it and passes without it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
DEMO = '''#!/bin/bash
# Builds the program beside this script against /repo's crates and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo"; cp /repo/Cargo.lock "$t/demo/Cargo.lock"
cd "$t/demo" && CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=1.78.0-x86_64-unknown-linux-gnu cargo run --offline -q 2>"$t/log" || { tail -n 20 "$t/log"; exit 1; }
'''
TOML = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n%s\n'
DEPS = {"core": 'ink-analyzer = { path = "/repo/crates/analyzer" }\nink-analyzer-ir = { path = "/repo/crates/ir" }',
        "lsp": 'ink-lsp-server = { path = "/repo/crates/lsp-server" }\nlsp-server = "*"\nlsp-types = "*"\nserde_json = "*"'}
if not os.environ.get("SEEDNS"):  # work on a private copy of /repo, mounted over it for this process only
    w = "/tmp/seedrepo"
    subprocess.run("rsync -a --delete /repo/ %s/ 2>/dev/null || { rm -rf /tmp/seedrepo; cp -a /repo %s; }" % (w, w), shell=True, check=True)
    subprocess.run("git -C %s checkout -q -- ." % w, shell=True)
    os.environ["SEEDNS"] = "1"
    sys.exit(subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && exec python3 %s %s" % (w, os.path.abspath(__file__), " ".join(sys.argv[1:]))]).returncode)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(d):
    return sh("bash %s/demo.sh" % d, cwd="/repo")
def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed-t.json")
    if not os.path.exists("/tmp/seed-t.json"): return "no result " + r.stdout[-500:]
    t = json.load(open("/tmp/seed-t.json")); os.remove("/tmp/seed-t.json")
    return [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in set(t["passed"])]
for n in sys.argv[1:]:
    s = SEEDS[n]; d = os.path.join("/tmp/seed-" + n)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo/src")
    open(d + "/demo.sh", "w").write(DEMO); open(d + "/demo/Cargo.toml", "w").write(TOML % DEPS[s.get("deps", "core")]); open(d + "/demo/src/main.rs", "w").write(s["demo"])
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty"
    try:
        r0 = demo(d)
        for f, a, b in s["edits"]:
            p = "/repo/" + f; t = open(p).read()
            assert t.count(a) == s.get("count", 1), (n, f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        r1 = demo(d); bad = tests()
        print(n, "clean demo", r0.returncode, "| patched demo", r1.returncode, r1.stdout[-300:].replace("\n", " / "), "| tests", bad, flush=True)
        if r0.returncode == 0 and r1.returncode != 0 and bad == []:
            o = V + "/seeded/" + n; shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
            open(o + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            print("   kept", flush=True)
        else:
            if r0.returncode: print(r0.stdout[-2000:])
    finally:
        sh("git -C /repo checkout -- ."); shutil.rmtree(d, ignore_errors=True)
