#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO_BODY [IMPORTS...] -- makes and confirms a seeded bug (development helper).
Reads a JSON description from stdin instead when called without arguments."""
import json, os, subprocess, sys, shutil, tempfile
d = json.load(sys.stdin)
out = f"/verif/seeded/{d['id']}"
os.makedirs(out, exist_ok=True)
scratch = tempfile.mkdtemp(prefix="seed", dir="/tmp")
repo = scratch + "/repo"
subprocess.check_call(["cp", "-a", "/repo", repo])
for e in d["edits"]:
    p = repo + "/" + e["file"]
    s = open(p).read()
    n = s.count(e["old"])
    if n < 1 or (n > 1 and "nth" not in e):
        print("edit matches", n, "times:", e["old"]); sys.exit(1)
    if n > 1:
        parts = s.split(e["old"])
        k = e["nth"]
        s = e["old"].join(parts[:k+1]) + e["new"] + e["old"].join(parts[k+1:])
    else:
        s = s.replace(e["old"], e["new"])
    open(p, "w").write(s)
diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
open(out + "/patch.diff", "w").write(diff)
imports = "".join(f'\t"{i}"\n' for i in d["imports"])
open(out + "/demo.go.txt", "w").write(f"package main\n\nimport (\n{imports})\n\n{d.get('decls','')}\nfunc main() {{\n{d['body']}\n}}\n")
open(out + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the behaviour is as specified; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go"
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go"}}' "$PWD" "$tmp" > "$tmp/ov.json"
go build -overlay "$tmp/ov.json" -o "$tmp/demo" ./zzdemo || exit 3
timeout 60 "$tmp/demo"
''')
json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
def demo(): return subprocess.run(["bash", out + "/demo.sh"], cwd=repo, capture_output=True, text=True)
r = demo(); print("with patch:", r.returncode, (r.stdout + r.stderr)[-300:])
t = subprocess.run(["go", "vet", "./..."], cwd=repo, capture_output=True, text=True, env=dict(os.environ, PATH="/usr/lib/go-1.22/bin:" + os.environ["PATH"], GOFLAGS="-mod=readonly -buildvcs=false"))
tt = subprocess.run(["go", "test", "./container/...", "./helpertools/...", "./utils/ta/..."], cwd=repo, capture_output=True, text=True, env=dict(os.environ, PATH="/usr/lib/go-1.22/bin:" + os.environ["PATH"], GOFLAGS="-mod=readonly -buildvcs=false"))
fails = [l for l in tt.stdout.splitlines() if "--- FAIL" in l]
print("test failures with patch (TestSD/empty_slice fails at baseline):", fails, tt.stderr[-300:])
subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
r2 = demo(); print("without patch:", r2.returncode, (r2.stdout + r2.stderr)[-300:])
shutil.rmtree(scratch)
ok = r.returncode not in (0, 3) and r2.returncode == 0 and not [f for f in fails if "TestSD" not in f]
print(d["id"], "OK" if ok else "NOT CONFIRMED")
