#!/usr/bin/env python3
"""seed.py ID PROP FILE PKG: developer's helper. Reads a JSON spec on stdin:
{"edits":[[file, old, new, (nth)]...], "test": go test source, "pkg": "cache/queue",
 "needs":..., "breaks":..., "property":...}; builds /verif/seeded/ID, confirms that
the patch compiles, passes the stable tests, and that the demo tells it apart."""
import json, os, subprocess, sys, shutil, tempfile
spec = json.load(sys.stdin) if len(sys.argv) < 3 else json.load(open(sys.argv[2]))
sid = sys.argv[1]
d = f"/verif/seeded/{sid}"
w = tempfile.mkdtemp(prefix="seed")
try:
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    r = w + "/repo"
    for e in spec["edits"]:
        p = f"{r}/{e[0]}"
        s = open(p).read()
        n = e[3] if len(e) > 3 else None
        c = s.count(e[1])
        if n is None:
            assert c == 1, (e[0], e[1], c)
            s = s.replace(e[1], e[2])
        else:
            parts = s.split(e[1]); assert c > n, c
            s = e[1].join(parts[:n+1]) + e[2] + e[1].join(parts[n+1:])
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", r, "diff"]).decode()
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(spec["test"])
    pkg = spec["pkg"]
    if spec.get("qcache"):
        sh = f'''#!/bin/bash
# Runs demo_test.go inside a copy of the package: 0 when it passes.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp -r ./qLearning_smartCache "$w/src"
cp "$here/demo_test.go" "$w/src/{pkg}/zz_demo_test.go"
export GOTOOLCHAIN=local GOPROXY=off GOENV=off GO111MODULE=off GOFLAGS=
GO=/opt/veriftools/go1.27.3/bin/go; [ -x "$GO" ] || GO=go
cd "$w/src/{pkg}" && timeout {spec.get("timeout",200)} "$GO" test -vet=off -count=1 -run '^TestDemo$' .
'''
    else:
        sh = f'''#!/bin/bash
# Runs demo_test.go inside the package (through an overlay): 0 when it passes.
here=$(cd "$(dirname "$0")" && pwd)
sim=$(pwd)/SmartCache/sim
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp "$sim/go.mod" "$sim/go.sum" "$w/"
{{
    printf '{{"Replace": {{"%s": "%s"' "$sim/{pkg}/zz_demo_test.go" "$here/demo_test.go"
    for f in "$sim/{pkg}"/*_test.go; do [ -e "$f" ] && printf ', "%s": ""' "$f"; done
    echo '}}}}'
}} > "$w/overlay.json"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
GO=/opt/veriftools/go1.27.3/bin/go; [ -x "$GO" ] || GO=go
(cd "$sim" && "$GO" test -modfile "$w/go.mod" -overlay "$w/overlay.json" -vet=off -c -o "$w/t" ./{pkg}) || exit 3
mkdir "$w/run" && cd "$w/run" && timeout {spec.get("timeout",200)} "$w/t" -test.run '^TestDemo$' -test.timeout 250s
'''
    open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run([d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run([d + "/demo.sh"], cwd=r, capture_output=True, text=True)
    print(sid, "demo clean", a.returncode, "patched", b.returncode)
    if a.returncode: print(a.stdout[-3000:], a.stderr[-2000:])
    if not b.returncode: print("NOT TOLD APART")
    else: print(b.stdout[:400], b.stderr[:300])
    if a.returncode or not b.returncode or b.returncode == 3: sys.exit(1)
    # stable tests on the patched copy: the test script names /repo, so patch it in place
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        bl = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        print("build", bl.returncode, bl.stderr[:500])
        subprocess.run(["bash", "/opt/vp/test.sh", w + "/out.json"], capture_output=True)
        base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open(w + "/out.json"))
        def passed(o):
            if isinstance(o, dict):
                for k in ("passed", "stable", "pass", "tests"):
                    if k in o: return set(o[k]) if not isinstance(o[k], dict) else {t for t, v in o[k].items() if v in ("pass", "passed", True)}
            return set(o)
        miss = passed(base) - passed(out)
        print("stable tests lost:", sorted(miss))
        if miss or bl.returncode: sys.exit(1)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
finally:
    shutil.rmtree(w)
