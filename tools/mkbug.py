#!/usr/bin/env python3
"""mkbug.py [ids...]: writes /verif/seeded/<id> from tools/bugs.py and confirms each in a scratch copy:
builds, passes the stable tests, demo passes without and fails with the change."""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("bugs", os.path.join(V, "tools", "bugs.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
DEMO = '''#!/bin/bash
# exit 0 when the property holds, 1 when it is broken
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=$(pwd)
{
  printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"' "$r" "$d"
  for f in "$r"/%(pkg)s/*_test.go; do [ -e "$f" ] && printf ',"%%s":""' "$f"; done
  printf '}}\\n'
} > "$t/o.json"
timeout 250 go test -vet=off -count=1 -overlay "$t/o.json" -run TestDemo -timeout 200s ./%(pkg)s || exit 1
'''
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env["PATH"]
def run(c, **k):
    return subprocess.run(c, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = sys.argv[1:]
bad = 0
for b in m.BUGS:
    if ids and b["id"] not in ids: continue
    sc = "/tmp/mkbug_repo"
    shutil.rmtree(sc, ignore_errors=True)
    run("cp -a /repo %s" % sc)
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = os.path.join(sc, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit does not match exactly once in", f, s.count(old)); bad += 1
        open(p, "w").write(s.replace(old, new))
    run("gofmt -l %s" % sc)
    diff = run("git -C %s diff" % sc).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": b["pkg"]})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go"), "w").write(b["demo"].lstrip())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r1 = run("go build ./...", cwd=sc)
    r2 = run("go test -vet=off -count=1 -p 1 -run 'TestServer|TestConfigLoad' ./cli/receiver ./cli/receiver/config", cwd=sc)
    r3 = run("bash %s/demo.sh" % d, cwd=sc)
    run("git checkout -- .", cwd=sc)
    r4 = run("bash %s/demo.sh" % d, cwd=sc)
    ok = r1.returncode == 0 and r2.returncode == 0 and r3.returncode != 0 and r4.returncode == 0 and "FAIL" in r3.stdout and "build failed" not in r3.stdout
    print(b["id"], b["property"], "ok" if ok else "BAD build=%d tests=%d demo(bug)=%d demo(clean)=%d" % (r1.returncode, r2.returncode, r3.returncode, r4.returncode))
    if not ok:
        bad += 1
        print(r1.stdout[-800:], r2.stdout[-800:] if r2.returncode else "", r3.stdout[-1500:], r4.stdout[-1500:])
    shutil.rmtree(sc, ignore_errors=True)
sys.exit(bad)
