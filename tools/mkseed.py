"""Helper to write a planted bug: mk(id, property, needs, breaks, pkg, edits, demo)."""
import json, os, subprocess
SW = "/tmp/seedwork/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, needs, breaks, pkg, edits, demo, args=""):
    d = f"{ROOT}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(SW):
        os.makedirs("/tmp/seedwork", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", "/tmp/seedwork/"])
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=SW)
    for f, old, new in edits:
        p = f"{SW}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    files = " ".join(sorted({f for f, _, _ in edits}))
    subprocess.check_call(f"gofmt -l {files}", shell=True, cwd=SW)
    diff = subprocess.check_output("git diff", shell=True, cwd=SW, text=True)
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=SW)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo_test.go", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# Runs the demonstration as a test of ./{pkg}, added through an overlay.
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
printf '{{"Replace":{{"%s":"%s"}}}}' "$PWD/{pkg}/zz_demo_test.go" "$d/demo_test.go" >"$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 {args} -run '^TestDemo' ./{pkg}
''')
