#!/usr/bin/env python3
"""Plants bugs in scratch copies of /repo and sees which of them count and which the checks catch.

plant.py SPEC.py [id ...]   SPEC.py defines BUGS, a list of dicts: id, property, edits=[(file, old, new), ...], demo
                            (Python source), needs, breaks. A bug that counts is written to seeded/<id>/.
plant.py --check [id ...]   runs the checks of the kept bugs (all, or the given ones) and prints which are caught.
Not used by any check.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
TEST = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-W", "ignore",
        "-o", "python_files=*.py", "-o", "junit_family=xunit2", "tests"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0",
           OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell")
HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import padasip as pa


def need(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def copy_repo():
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    os.makedirs(t + "/repo")
    p = subprocess.run("git -C /repo archive HEAD | tar x -C %s/repo" % t, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base",
                   shell=True, check=True, cwd=t + "/repo")
    return t


def tests(repo):
    return subprocess.run(TEST, cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def demo(folder, repo):
    try:
        return subprocess.run(["bash", folder + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, timeout=300,
                              stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, "timeout")


def plant(b):
    t = copy_repo()
    r = t + "/repo"
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf:
                s = s.replace("\r\n", "\n")
            if s.count(old) != 1:
                return b, "edit matches %d times: %r" % (s.count(old), old), ""
            s = s.replace(old, new)
            if crlf:
                s = s.replace("\n", "\r\n")
            open(p, "w", newline="").write(s)
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True).stdout
        out = t + "/seed"
        os.makedirs(out)
        open(out + "/patch.diff", "wb").write(diff)
        open(out + "/demo.py", "w").write(HEAD + b["demo"].strip("\n") + "\nprint(\"ok\")\n")
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        bad = demo(out, r)
        if bad.returncode == 0:
            return b, "demo passes with the patch", bad.stdout[-400:]
        good = demo(out, "/repo")
        if good.returncode != 0:
            return b, "demo fails on the clean tree", good.stdout[-600:]
        te = tests(r)
        if te.returncode != 0:
            return b, "tests fail with the patch", "\n".join(l for l in te.stdout.splitlines() if "FAILED" in l)
        dst = os.path.join(SEEDED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return b, "kept", bad.stdout.strip().splitlines()[-1] if bad.stdout.strip() else ""
    finally:
        shutil.rmtree(t, ignore_errors=True)


def check(bid, seed="1"):
    d = os.path.join(SEEDED, bid)
    meta = json.load(open(d + "/meta.json"))
    t = copy_repo()
    try:
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=t + "/repo", check=True)
        env = dict(os.environ, PADASIP_REPO=t + "/repo", PBT_EVIDENCE=t + "/ev", PBT_REPLAYS=t + "/rp",
                   VERIF_SEED=seed, VERIF_TIER="quick")
        import time
        t0 = time.time()
        p = subprocess.run([V + "/check.sh", meta["property"]], env=env, capture_output=True, text=True)
        lines = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        return bid, meta["property"], p.returncode, time.time() - t0, (p.stdout + p.stderr)[-300:] if p.returncode not in (0, 1) else (lines or [""])[0]
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    if args and args[0] == "--check":
        seed = "1"
        ids = args[1:] or sorted(os.listdir(SEEDED))
        if ids[0].startswith("seed="):
            seed = ids[0][5:]
            ids = ids[1:] or sorted(os.listdir(SEEDED))
        missed = []
        for i in ids:
            bid, prop, rc, dt, line = check(i, seed)
            print("%-8s %s %s %.1fs %s" % (bid, prop, {0: "MISSED", 1: "caught"}.get(rc, "rc%d" % rc), dt, "" if rc == 1 else line), flush=True)
            if rc != 1:
                missed.append(bid)
        print("missed:", missed)
    else:
        bugs = runpy.run_path(args[0])["BUGS"]
        if args[1:]:
            bugs = [b for b in bugs if b["id"] in args[1:]]
        with cf.ThreadPoolExecutor(4) as ex:
            for b, what, more in ex.map(plant, bugs):
                print("%-8s %s %s | %s" % (b["id"], b["property"], what, more), flush=True)
