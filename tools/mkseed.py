#!/usr/bin/env python3
"""mkseed.py SPEC.py: plant the bugs described in SPEC.py (list `bugs` of dicts) under /verif/seeded.

Each bug: id, prop, edits [(file, old, new)], needs, breaks, demo (Go test source with TestZZDemo in package pdf, or
None with `script` = a bash script).  A bug is kept only when the patch applies to /repo's HEAD, changes lines of the
original repository, builds, passes the stable tests, and the demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys
V = "/verif"; S = "/tmp/w/seed"
ENV = dict(os.environ)
def sh(cmd, cwd=None, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, executable="/bin/bash", **k)
DEMO = '''#!/bin/bash
# Runs TestZZDemo of demo.go.txt inside package pdf of the tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
tmp="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$repo/pdf/zz_demo_test.go\\":\\"$tmp/zz_demo_test.go\\"}}" > "$tmp/overlay.json"
TMPDIR="$tmp" go test -vet=off -overlay "$tmp/overlay.json" -run 'TestZZDemo' -count=1 -timeout 120s ./pdf
'''
def one(b):
    d = f"{V}/seeded/{b['id']}"
    shutil.rmtree(S, ignore_errors=True); shutil.copytree("/repo", S, symlinks=True)
    lines = {}
    for f, old, new in b["edits"]:
        s = open(f"{S}/{f}").read()
        assert s.count(old) == 1, (b["id"], "matches", s.count(old), old)
        open(f"{S}/{f}", "w").write(s.replace(old, new))
    diff = sh("git diff", S).stdout
    # removed lines must come from the base commit
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            bl = sh(f"git blame -l -s --root -L {n},{n} {cur}", "/repo").stdout.lstrip("^")
            if not bl.startswith(base[:30]): print("  note: changes a line not in the original:", cur, n, l)
            n += 1
        elif l.startswith(" "): n += 1
    r = sh(". /opt/vp/env.sh; go build ./... && go test -json -vet=off -count=1 ./... > /tmp/w/seed.json; python3 /opt/vp/results.py /tmp/w/seed.res gojson:/tmp/w/seed.json", S)
    if r.returncode: print(b["id"], "BUILD/TEST", r.stdout[-500:], r.stderr[-800:]); 
    base_t = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/w/seed.res"))
    want = set(base_t.get("stable_pass", base_t.get("stable", base_t.get("passed", []))))
    got = set(res.get("passed", []))
    if want - got: print(b["id"], "TESTS FAIL", list(want - got)[:5]); return
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if b.get("script"): open(d + "/demo.sh", "w").write(b["script"])
    else: open(d + "/demo.sh", "w").write(DEMO)
    if b.get("demo"): open(d + "/demo.go.txt", "w").write(b["demo"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = sh(f"bash {d}/demo.sh", "/repo"); c = sh(f"bash {d}/demo.sh", S)
    ok = a.returncode == 0 and c.returncode != 0
    print(b["id"], "ok" if ok else "BAD", a.returncode, c.returncode)
    if not ok: print(a.stdout[-800:], a.stderr[-800:]); print("--- patched", c.stdout[-800:], c.stderr[-800:]); shutil.rmtree(d)
    else: print("   ", [l for l in c.stdout.splitlines() if "demo.go" in l or "zz_demo" in l][:2])
ns = {}; exec(open(sys.argv[1]).read(), ns)
for b in ns["bugs"]:
    if len(sys.argv) < 3 or b["id"] in sys.argv[2:]: one(b)
shutil.rmtree(S, ignore_errors=True)
