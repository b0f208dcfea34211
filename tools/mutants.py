#!/usr/bin/env python3
"""Mutation campaign used while developing the checks (not by them).

usage: mutants.py OUT.json [FILE...]   mutates the files (default: all of
server, sdk, client), keeps the mutants that compile and pass the existing
tests, and records which checks report each of them.
env: CHECKER (default /verif/bin/solidcheck), JOBS (8), ONLY=property ids
"""
import json, os, subprocess, sys, shutil, threading, queue, time

REPO = "/repo"
CHECKER = os.environ.get("CHECKER", "/verif/bin/solidcheck")
JOBS = int(os.environ.get("JOBS", "8"))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")


def sh(cmd, cwd, env=ENV, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    out = sys.argv[1]
    files = sys.argv[2:]
    if not files:
        files = [f.strip() for f in subprocess.check_output("find server sdk client -name '*.go' -not -name '*_test.go' -not -path '*/mock/*' -not -path '*/paseto/*' | sort", shell=True, cwd=REPO, text=True).split()]
    muts = [json.loads(l) for l in subprocess.check_output(["/tmp/mutate"] + files, cwd=REPO, text=True).splitlines()]
    def text_only(m):
        old = open(os.path.join(REPO, m["File"]), "rb").read()[m["Start"]:m["End"]].decode()
        if old.startswith('"') and (" " in old or "%" in old):
            return True  # wording of an error message
        return m["Desc"].startswith("arguments swapped") and ("Errorf(" in m["Desc"] or "Sprintf(" in m["Desc"])

    muts = [m for m in muts if not text_only(m)]
    done = {}
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done[(d["File"], d["Start"], d["End"], d["New"])] = d
    todo = queue.Queue()
    for m in muts:
        if (m["File"], m["Start"], m["End"], m["New"]) not in done:
            todo.put(m)
    print(len(muts), "mutants,", todo.qsize(), "to run", flush=True)
    lock = threading.Lock()
    f = open(out, "a")
    pk = [p for p in subprocess.check_output(["go", "list", "-e", "-find", "./server/...", "./sdk/...", "./client/..."], cwd=REPO, env=ENV, text=True).split() if not p.endswith("/paseto") and "/mock" not in p]
    stats = {}

    def work(i):
        w = f"/tmp/mw/{i}"
        if not os.path.exists(w):
            shutil.copytree(REPO, w, symlinks=True)
        vd = f"/tmp/mw/v{i}"
        os.makedirs(vd, exist_ok=True)
        shutil.copy("/verif/known_findings.txt", vd)
        while True:
            try:
                m = todo.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(w, m["File"])
            orig = open(os.path.join(REPO, m["File"]), "rb").read()
            open(p, "wb").write(orig[:m["Start"]] + m["New"].encode() + orig[m["End"]:])
            try:
                rc, o = sh(["go", "build", "./" + os.path.dirname(m["File"])], w)
                if rc != 0:
                    m["res"] = "nobuild"
                else:
                    rc, o = sh(["go", "test", "-vet=off", "-timeout", "60s"] + pk, w, timeout=200)
                    if rc != 0:
                        m["res"] = "tests"
                    else:
                        e = dict(ENV, SOLID_REPO=w, VERIF_DIR=vd)
                        rc, o = sh([CHECKER, "check"] + (os.environ.get("ONLY", "all").split()), w, env=e)
                        hit = [l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("VIOLATION")]
                        m["res"] = "caught" if hit else ("survived" if rc == 0 else "error")
                        m["by"] = hit
            finally:
                open(p, "wb").write(orig)
            with lock:
                f.write(json.dumps(m) + "\n")
                f.flush()
                stats[m["res"]] = stats.get(m["res"], 0) + 1
                if sum(stats.values()) % 100 == 0:
                    print(time.strftime("%H:%M:%S"), stats, flush=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stats)


main()
