#!/usr/bin/env python3
"""Mutation testing of the checks: applies each mutant of mutants.py to a scratch
copy of /repo, verifies that it builds and passes the tests, and runs the checks.
usage: mutate.py [-j N] [-all] [id-substring...]"""
import sys, os, subprocess, shutil, tempfile, json, re
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mutants import M
root = os.path.dirname(here)
args = sys.argv[1:]
J = 3
allp = False
if "-j" in args:
    i = args.index("-j"); J = int(args[i+1]); del args[i:i+2]
if "-all" in args:
    allp = True; args.remove("-all")
def sh(cmd, cwd=None, env=None, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
def one(m):
    id, props, edits = m["id"], m["props"], m["edits"]
    d = tempfile.mkdtemp(prefix="mut-" + id + "-")
    try:
        repo = d + "/src/github.com/johnnadratowski/golang-neo4j-bolt-driver"
        os.makedirs(os.path.dirname(repo))
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            s = open(repo + "/" + f).read()
            if s.count(old) != 1:
                return id, "BAD-EDIT %s count=%d" % (f, s.count(old)), {}
            open(repo + "/" + f, "w").write(s.replace(old, new))
        env = dict(os.environ, GOPATH=d, GO111MODULE="off", GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
        rc, out = sh("go build ./...", repo, env)
        if rc: return id, "NO-BUILD " + out[-300:], {}
        rc, out = sh("go test -vet=off -count=1 -timeout 60s ./...", repo, env, 100)
        if rc: return id, "TESTS-FAIL " + " ".join(re.findall(r"--- FAIL: (\S+)", out)[:4]), {}
        res = {}
        ps = ["C%02d" % i for i in range(1, 28)] if allp else props
        for p in ps:
            env2 = dict(os.environ, GOSYM_REPO=repo, GOSYM_EVIDENCE=d + "/ev", VERIF_TIER="quick")
            rc, out = sh("%s/check.sh %s quick -workers %d" % (root, p, max(2, 8 // J)), root, env2)
            line = ""
            mm = re.search(r"VIOLATION.*\n\s+(.*)\n\s+native replay: (.*)", out)
            if mm: line = mm.group(1)[:150] + " || " + mm.group(2)[:60]
            elif rc: line = out[-300:]
            else:
                mm = re.search(r"exhaustive=(\w+)", out)
                line = "exh=" + (mm.group(1) if mm else "?")
                u = re.findall(r"NOT reproduced.*|incomplete x.*|disagreement.*", out)
                if u: line += " " + " ; ".join(x[:160] for x in u[:3])
            res[p] = (rc, line)
            if rc == 1 and not allp:
                break
        return id, "ok", res
    finally:
        shutil.rmtree(d, ignore_errors=True)
        import hashlib
        g = root + "/build/gopath-" + hashlib.sha256((d + "/src/github.com/johnnadratowski/golang-neo4j-bolt-driver").encode()).hexdigest()[:8]
        shutil.rmtree(g, ignore_errors=True)
ms = [m for m in M if not args or any(a in m["id"] for a in args)]
caught = missed = bad = 0
with ThreadPoolExecutor(J) as ex:
    for id, st, res in ex.map(one, ms):
        exp = next(m for m in ms if m["id"] == id)["props"]
        if st != "ok":
            bad += 1
            print("%-28s %s" % (id, st), flush=True); continue
        main = res.get(exp[0], (None, ""))
        ok = any(res[p][0] == 1 for p in exp if p in res)
        caught += ok; missed += not ok
        print("%-28s %s" % (id, "CAUGHT" if ok else "MISSED"), flush=True)
        for p, (rc, line) in res.items():
            if rc or p in exp:
                print("      %s rc=%s %s" % (p, rc, line), flush=True)
print("caught", caught, "missed", missed, "bad", bad)
