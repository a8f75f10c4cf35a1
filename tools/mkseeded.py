#!/usr/bin/env python3
"""Writes /verif/seeded from seeds.py and confirms each planted bug in scratch copies of /repo:
it builds, passes the tests, its demonstration passes without it and fails with it, and it
changes lines of the original repository. usage: mkseeded.py [-j N] [id-substring...]"""
import sys, os, subprocess, shutil, tempfile, json, re
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seeds import S
BASE = "31f4f89"
out = os.path.join(os.path.dirname(here), "seeded")
P = "github.com/johnnadratowski/golang-neo4j-bolt-driver"
args = sys.argv[1:]
J = 4
if "-j" in args:
    i = args.index("-j"); J = int(args[i+1]); del args[i:i+2]
def sh(cmd, cwd=None, env=None, t=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"
def one(s):
    d = os.path.join(out, s["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = tmp + "/src/" + P
        os.makedirs(os.path.dirname(repo))
        shutil.copytree("/repo", repo, symlinks=True)
        open(d + "/main.go", "w").write(s["main"])
        rc, o = sh("gofmt -w main.go", d)
        if rc: return s["id"], "GOFMT " + o
        need_fake = True
        shutil.copy(here + "/seed/fake.go", d); shutil.copy(here + "/seed/demo.sh", d)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, o = sh("bash %s/demo.sh" % d, repo)
        if rc: return s["id"], "DEMO FAILS ON CLEAN rc=%d %s" % (rc, o[-400:])
        for f, old, new in s["edits"]:
            t = open(repo + "/" + f).read()
            if t.count(old) != 1: return s["id"], "BAD-EDIT %s %d" % (f, t.count(old))
            open(repo + "/" + f, "w").write(t.replace(old, new))
        rc, o = sh("git diff --no-color > %s/patch.diff" % d, repo)
        # lines removed must come from the original repository
        lines = 0; orig = 0
        cur = None; ln = 0
        for l in open(d + "/patch.diff"):
            if l.startswith("--- a/"): cur = l[6:].strip()
            elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-"):
                b = subprocess.run(["git", "blame", "-l", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", cur], cwd=repo, stdout=subprocess.PIPE).stdout.decode()
                lines += 1; orig += BASE in b[:50]
                ln += 1
            elif l.startswith(" "): ln += 1
        env = dict(os.environ, GOPATH=tmp, GO111MODULE="off", GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
        rc, o = sh("go build ./... && go test -vet=off -count=1 -timeout 60s ./...", repo, env)
        if rc: return s["id"], "TESTS-FAIL " + " ".join(re.findall(r"--- FAIL: (\S+)", o)[:5]) + o[-200:]
        rc, o = sh("bash %s/demo.sh" % d, repo)
        if rc == 0 or rc == 3: return s["id"], "DEMO rc=%d WITH PATCH %s" % (rc, o[-300:])
        return s["id"], "ok (%d/%d original lines) %s" % (orig, lines, o.strip()[-120:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
ss = [s for s in S if not args or any(a in s["id"] for a in args)]
with ThreadPoolExecutor(J) as ex:
    for id, r in ex.map(one, ss):
        print("%-26s %s" % (id, r), flush=True)
