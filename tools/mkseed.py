#!/usr/bin/env python3
"""mkseed.py DEFS.py [ID...]: builds and validates planted changes. DEFS.py defines SEEDS, a list of
dicts {id, property, needs, breaks, edits: [(file, old, new)], pkg, demo}."""
import json, os, shutil, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); D = importlib.util.module_from_spec(spec); spec.loader.exec_module(D)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# Runs demo_test.go.txt as a test of package ./%s of the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
echo "{\\"Replace\\":{\\"$PWD/%szz_seed_demo_test.go\\":\\"$D/demo_test.go.txt\\"}}" > "$T/overlay.json"
timeout 280 go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestSeedDemo$' ./%s
'''
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
bad = 0
for s in D.SEEDS:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    W = "/tmp/mkseed.%d" % os.getpid()
    shutil.rmtree(W, ignore_errors=True); sh("cp -a /repo " + W, "/")
    try:
        d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
        p = s["pkg"]; pp = "" if p in ("", ".") else p + "/"
        open(d + "/demo.sh", "w").write(DEMO % (p, pp, p)); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go.txt", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, W)
        for f, old, new in s["edits"]:
            t = open(W + "/" + f).read()
            if t.count(old) < 1: print(s["id"], "EDIT NOT FOUND", f, repr(old)); bad = 1
            open(W + "/" + f, "w").write(t.replace(old, new, 1))
        df = sh("git diff", W).stdout
        open(d + "/patch.diff", "w").write(df)
        r1 = sh("bash %s/demo.sh" % d, W)
        rt = sh("go vet ./... ; go test -vet=off -count=1 ./... 2>&1", W)
        ok = r0.returncode == 0 and r1.returncode != 0 and rt.returncode == 0
        print(s["id"], "ok" if ok else "BAD", "demo clean:", r0.returncode, "patched:", r1.returncode, "tests:", rt.returncode)
        if not ok:
            bad = 1; print((r0.stdout + r0.stderr)[-1500:] if r0.returncode else "", (rt.stdout + rt.stderr)[-1500:] if rt.returncode else "", r1.stdout[-800:] if r1.returncode == 0 else "")
        elif "build failed" in r1.stdout + r1.stderr: print("  demo build failed"); bad = 1
    finally:
        shutil.rmtree(W, ignore_errors=True)
sys.exit(bad)
