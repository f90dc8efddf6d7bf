"""Helper for planted bugs: builds /verif/seeded/<id>/ from edits and a demo test,
after confirming that the patch applies to /repo's HEAD, builds, passes the stable
tests, that the demo passes without it and fails with it."""
import json, os, subprocess, shutil, sys
DEMO = '''#!/bin/bash
# cwd: the repository. Runs a Go test that is laid over the working tree.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(dir)s/zz_demo_test.go" "$here/demo_test.go" > "$t/overlay.json"
go test -count=1 -vet=off -timeout 120s -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(dir)s/
'''
W = "/tmp/seedwork"
def run(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
def mk(id, prop, edits, needs, breaks, demo, dir="tests"):
    d = "/verif/seeded/" + id
    w = W + "/" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    for f, old, new in edits:
        p = w + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT", f, "matches", s.count(old)); return False
        open(p, "w").write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git diff --no-color", shell=True, cwd=w, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % {"dir": dir}); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = run(". /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'", w)
    if "FAIL" in r.stdout or "ok" not in r.stdout:
        print(id, "TESTS with patch:", r.stdout[-1500:]); ok = False
    r = run("bash %s/demo.sh" % d, "/repo")
    if r.returncode != 0:
        print(id, "DEMO on clean tree fails:", r.stdout[-1500:]); ok = False
    r2 = run("bash %s/demo.sh" % d, w)
    if r2.returncode == 0:
        print(id, "DEMO with patch passes"); ok = False
    elif "build failed" in r2.stdout:
        print(id, "DEMO does not build", r2.stdout[-1500:]); ok = False
    print(id, "ok" if ok else "BAD", "|", [l for l in r2.stdout.splitlines() if "demo_test.go" in l or "panic" in l][:2])
    shutil.rmtree(w, ignore_errors=True)
    if not ok:
        shutil.rmtree(d)
    return ok
