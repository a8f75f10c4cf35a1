#!/usr/bin/env python3
"""Applies each behaviour-preserving edit of refactors.py to a scratch copy of /repo and runs every check:
all have to stay quiet and complete. usage: refactor.py [-j N] [-p C01,C02] [id-substring...]"""
import sys, os, subprocess, shutil, tempfile, re, hashlib
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from refactors import R
root = os.path.dirname(here)
args = sys.argv[1:]; J = 2; props = ["C%02d" % i for i in range(1, 28)]
if "-j" in args:
    i = args.index("-j"); J = int(args[i+1]); del args[i:i+2]
if "-p" in args:
    i = args.index("-p"); props = args[i+1].split(","); del args[i:i+2]
def edit(s, old, new):
    if old.startswith("func "):
        i = s.index("\n" + old) + 1
        j = s.index("\n}\n", i) + 3
        return s[:i] + new + s[j:]
    assert s.count(old) == 1, (old, s.count(old))
    return s.replace(old, new)
def one(x):
    id, edits = x
    d = tempfile.mkdtemp(prefix="ref-" + id + "-")
    repo = d + "/src/github.com/johnnadratowski/golang-neo4j-bolt-driver"
    out = []
    try:
        os.makedirs(os.path.dirname(repo))
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            try: s = edit(open(repo + "/" + f).read(), old, new)
            except Exception as e: return id, ["BAD EDIT %s %r: %s" % (f, old[:50], e)]
            open(repo + "/" + f, "w").write(s)
        env = dict(os.environ, GOPATH=d, GO111MODULE="off", GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
        p = subprocess.run("go vet ./... 2>&1 | grep -v '^#' | head -5; go build ./... && go test -vet=off -count=1 ./...", shell=True, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return id, ["BUILD/TEST " + p.stdout.decode()[-1500:]]
        for c in props:
            env2 = dict(os.environ, GOSYM_REPO=repo, GOSYM_EVIDENCE=d + "/ev", VERIF_TIER="quick", GOSYM_V="1")
            p = subprocess.run([root + "/check.sh", c, "quick", "-workers", str(max(2, 8 // J))], cwd=root, env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors="replace")
            if p.returncode or "exhaustive=true" not in o:
                out.append("%s rc=%d %s" % (c, p.returncode, "\n".join(l[:260] for l in o.split("\n") if re.search("VIOLATION|incomplete|verifh|native|gosym|unsupported|exhaustive", l))[:1800]))
        return id, out
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(root + "/build/gopath-" + hashlib.sha256(repo.encode()).hexdigest()[:8], ignore_errors=True)
todo = [x for x in R if not args or any(a in x[0] for a in args)]
with ThreadPoolExecutor(J) as ex:
    for id, out in ex.map(one, todo):
        print(id, "quiet" if not out else "NOT QUIET", flush=True)
        for l in out: print("   ", l, flush=True)
