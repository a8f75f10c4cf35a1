#!/usr/bin/env python3
"""Applies each planted bug of seeded/ to a scratch copy of /repo and runs the check of its property
(-all: every check). usage: seedrun.py [-j N] [-all] [id-substring...]"""
import sys, os, subprocess, shutil, tempfile, json, re
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J, allp = 2, False
if "-j" in args:
    i = args.index("-j"); J = int(args[i+1]); del args[i:i+2]
if "-all" in args:
    allp = True; args.remove("-all")
def one(id):
    d = tempfile.mkdtemp(prefix="seed-" + id + "-")
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        p = subprocess.run(["git", "apply", f"{root}/seeded/{id}/patch.diff"], cwd=repo, stderr=subprocess.STDOUT, stdout=subprocess.PIPE)
        if p.returncode: return id, {"apply": (p.returncode, p.stdout.decode())}
        prop = json.load(open(f"{root}/seeded/{id}/meta.json"))["property"]
        res = {}
        for c in (["C%02d" % i for i in range(1, 28)] if allp else [prop]):
            env = dict(os.environ, GOSYM_REPO=repo, GOSYM_EVIDENCE=d + "/ev", VERIF_TIER="quick")
            p = subprocess.run([root + "/check.sh", c, "quick", "-workers", str(max(2, 8 // J))], cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode(errors="replace")
            mm = re.search(r"VIOLATION.*\n\s+(.*)\n\s+native replay: (.*)", out)
            res[c] = (p.returncode, (mm.group(1) + " || " + mm.group(2))[:220] if mm else out.strip().split("\n")[-1][:200])
        return id, res
    finally:
        shutil.rmtree(d, ignore_errors=True)
        import hashlib
        shutil.rmtree(root + "/build/gopath-" + hashlib.sha256((d + "/repo").encode()).hexdigest()[:8], ignore_errors=True)
ids = sorted(x for x in os.listdir(root + "/seeded") if not args or any(a in x for a in args))
missed = []
with ThreadPoolExecutor(J) as ex:
    for id, res in ex.map(one, ids):
        caught = [c for c in res if res[c][0] == 1]
        prop = json.load(open(f"{root}/seeded/{id}/meta.json"))["property"]
        if prop not in caught: missed.append(id)
        print(id, "caught by", " ".join(caught) or "none", flush=True)
        for c in res:
            if not allp or res[c][0] == 1: print("     ", c, "rc=%d" % res[c][0], res[c][1], flush=True)
print("missed:", missed)
