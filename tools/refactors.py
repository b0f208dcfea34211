#!/usr/bin/env python3
"""Apply edits that keep the behaviour to copies of /repo; the checks must stay quiet.

usage: refactors.py [--no-tests] [KIND...]
Each kind (tools/refactor) is applied at every place at once. Files that no
longer build are put back. env: CHECKER (default /verif/bin/solidcheck)
"""
import os, re, shutil, subprocess, sys

REPO = "/repo"
CHECKER = os.environ.get("CHECKER", "/verif/bin/solidcheck")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
TOOL = "/tmp/refactor"


def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    args = sys.argv[1:]
    tests = "--no-tests" not in args
    args = [a for a in args if not a.startswith("--")]
    sh(["go", "build", "-o", TOOL, "."], "/verif/tools/refactor")
    kinds = args or sh([TOOL, "list", "."], "/tmp")[1].split()
    bad = 0
    for k in kinds:
        w = f"/tmp/rf-{k}"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(REPO, w, symlinks=True)
        rc, o = sh([TOOL, k, w], w)
        note = o.strip().splitlines()[-1] if o.strip() else ""
        pk = [p for p in sh(["go", "list", "-e", "-find", "./server/...", "./sdk/...", "./client/...", "./oidc/..."], w)[1].split() if p.startswith("zntr.io") and not p.endswith("/paseto") and "/mock" not in p]
        reverted = []
        for _ in range(12):
            rc, o = sh(["go", "build", "-gcflags=-e"] + pk, w)
            if rc == 0:
                break
            fs = sorted(set(re.findall(r"^(\S+\.go):\d+", o, re.M)))
            fs = [f for f in fs if not f.startswith("/")]
            if not fs:
                print(o[:2000])
                break
            for f in fs:
                shutil.copy(os.path.join(REPO, f), os.path.join(w, f))
                reverted.append((f, re.findall(re.escape(f) + r":\d+:\d+: (.*)", o)[:1]))
        t = ""
        if tests:
            rc, o = sh(["go", "test", "-vet=off"] + pk, w)
            t = "tests ok" if rc == 0 else "TESTS FAIL " + " ".join(re.findall(r"^FAIL\s+(\S+)", o, re.M))
        vd = w + "-v"
        os.makedirs(vd, exist_ok=True)
        shutil.copy("/verif/known_findings.txt", vd)
        rc, o = sh([CHECKER, "check", "all"], w, env=dict(ENV, SOLID_REPO=w, VERIF_DIR=vd))
        open(f"/tmp/rf-{k}.log", "w").write(o)
        hits = sorted(set(re.findall(r"VIOLATION property=(\S+)", o)))
        print(f"{k}: {note.split()[-1] if note else '?'} places, {len(reverted)} files put back, {t}; exit {rc} alarms {hits}", flush=True)
        for f, e in reverted:
            print("   ", f, e)
        if rc:
            bad += 1
        else:
            shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(vd, ignore_errors=True)
    sys.exit(1 if bad else 0)


main()
