#!/usr/bin/env python3
"""tryseed.py [id ...]: runs the property's check (or CHECK=C01,C05) on a scratch copy of /repo with a stored planted bug."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
S = "/verif/seeded"


def one(i):
    w = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    try:
        repo = w + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        subprocess.run(["git", "apply", "%s/%s/patch.diff" % (S, i)], cwd=repo, check=True)
        os.makedirs(w + "/work")
        e = dict(os.environ, VERIF_REPO=repo, VERIF_WORK=w + "/work", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick"))
        out = []
        for p in (os.environ.get("CHECK") or json.load(open("%s/%s/meta.json" % (S, i)))["property"]).split(","):
            r = subprocess.run(["python3", "tools/check.py", p], cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append("%s exit %d %s" % (p, r.returncode, r.stdout.strip().splitlines()[-2 if r.returncode == 1 else -1][:200]))
        return i, "; ".join(out)
    finally:
        shutil.rmtree(w)


ids = sys.argv[1:] or sorted(os.listdir(S))
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for i, r in ex.map(one, ids):
        print("%-24s %s" % (i, r), flush=True)
