#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy of /repo and runs the checks on them.

usage: seedcheck.py [--no-tests] [--all-checks] [ID...]
"""
import json, os, subprocess, sys
SW = "/tmp/seedwork/repo"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = {a for a in sys.argv[1:] if a.startswith("--")}
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=SW, env=ENV, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def fresh():
    if not os.path.isdir(SW):
        os.makedirs("/tmp/seedwork", exist_ok=True)
        sh("cp -a /repo /tmp/seedwork/", cwd="/")
    head = sh("git rev-parse HEAD", cwd="/repo")[1].strip()
    sh(f"git checkout -q -- . && git fetch -q /repo && git checkout -q {head}")
    assert sh("git rev-parse HEAD")[1].strip() == head
    assert sh("git status --porcelain")[1].strip() == ""


stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
fresh()
bad = 0
RES = here + "/tools/seedresults.json"
results = json.load(open(RES)) if os.path.exists(RES) else {}
sh("mkdir -p /tmp/seedwork/v; cp " + here + "/known_findings.txt /tmp/seedwork/v/", cwd="/")
for id in args or sorted(os.listdir(here + "/seeded")):
    d = f"{here}/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    rep = []
    rc, out = sh(f"bash {d}/demo.sh")
    if rc != 0:
        rep.append("DEMO FAILS CLEAN\n" + out[-1500:])
    rc, out = sh(f"git apply {d}/patch.diff")
    if rc != 0:
        print(id, "PATCH DOES NOT APPLY", out)
        bad += 1
        continue
    try:
        rc, out = sh("go build $(go list -e -find ./... | grep -v sdk/token/paseto)")
        if rc != 0:
            rep.append("BUILD FAILS\n" + out[-1500:])
        if "--no-tests" not in opts:
            rc, out = sh("go test -json -vet=off -count=1 $(go list -e -find ./... | grep -v sdk/token/paseto)")
            ok, ko = set(), set()
            for l in out.splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get("Test"):
                    (ok if e["Action"] == "pass" else ko if e["Action"] == "fail" else set()).add(e["Package"] + "/" + e["Test"])
            miss = stable - (ok - ko)
            if miss:
                rep.append("TESTS FAIL: " + ", ".join(sorted(miss)[:4]))
        rc, out = sh(f"bash {d}/demo.sh")
        if rc == 0:
            rep.append("DEMO PASSES WITH PATCH")
        elif "--- FAIL" not in out and "panic" not in out:
            rep.append("DEMO FAILS ODDLY\n" + out[-800:])
        ids = "all" if "--all-checks" in opts else meta["property"]
        rc, out = sh(f"{here}/bin/solidcheck check {ids}", env=dict(ENV, SOLID_REPO=SW, VERIF_DIR="/tmp/seedwork/v"))
        caught = [l.split()[1].split("=")[1] for l in out.splitlines() if l.startswith("VIOLATION")]
        hit = meta["property"] in caught
        results[id] = (meta["property"] if hit else "missed") + ("" if not [x for x in caught if x != meta["property"]] else ", also " + ", ".join(x for x in caught if x != meta["property"]))
        why = "\n".join("      " + l.strip()[:220] for l in out.splitlines() if l.startswith("  ["))
        print(id, meta["property"], "CAUGHT" if hit else "MISSED", caught if "--all-checks" in opts else "", "rc=%d" % rc)
        if not hit:
            print(out[-600:])
        print(why[:700])
    finally:
        sh("git checkout -q -- .")
    for r in rep:
        bad += 1
        print("   !!", r)
if "--all-checks" in opts:
    json.dump(results, open(RES, "w"), indent=1, sort_keys=True)
print("problems:", bad)
