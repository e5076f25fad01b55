#!/usr/bin/env python3
"""plant.py FILE.py [id ...]: confirms and stores planted bugs (not used by any check).

FILE.py defines SEEDS: a list of dicts id, property, edits [(file, old, new)], demo (C++ text), needs, breaks.
For each one: builds the patch against a scratch copy of /repo, runs the repository's tests and the demonstration on
the changed copy (and the demonstration on /repo), stores /verif/seeded/<id>, and runs the property's check against the copy.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = "/verif/seeded"
DEMO = """#!/bin/bash
# run with the repository as working directory; builds and runs the program beside this script
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
g++ -std=c++17 -O1 %s-I include "$d/demo.cpp" -o "$t/demo" || { rmdir "$t"; exit 2; }
(cd "$t" && timeout 250 ./demo)
rc=$?
find "$t" -mindepth 1 -maxdepth 1 -type f -delete
rmdir "$t"
exit $rc
"""


def run(cmd, cwd, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)


def one(s):
    out, w = [], tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        repo = os.path.join(w, "repo")
        run("git clone -q /repo " + repo, w)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return s["id"], "EDIT MATCHES %d TIMES: %s" % (n, old)
            open(p, "w").write(t.replace(old, new))
        patch = run(["git", "diff"], repo).stdout
        for f, old, new in s["edits"]:      # a planted bug changes lines of the original repository
            base = run(["git", "show", "d94b9fb:" + f], repo).stdout.splitlines()
            for l in run(["git", "diff", "-U0", "--", f], repo).stdout.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base:
                    return s["id"], "CHANGES A LINE THAT IS NOT ORIGINAL: " + l
        d = os.path.join(w, "seed")
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = run("g++ -std=c++17 -O1 -DNDEBUG -I include test/test_*.cpp -lgtest -lgtest_main -lpthread -o ../t", repo)
        if r.returncode:
            return s["id"], "TESTS DO NOT COMPILE\n" + r.stdout[-1500:]
        os.makedirs(w + "/run")
        r = run("../t", w + "/run")
        if r.returncode:
            return s["id"], "TESTS FAIL: " + " ".join(sorted({l.split()[3] if False else l for l in r.stdout.splitlines() if "[  FAILED" in l}))[:600] + r.stdout[-300:]
        a, b = run([d + "/demo.sh"], "/repo"), run([d + "/demo.sh"], repo)
        out.append("demo unchanged %d, planted %d" % (a.returncode, b.returncode))
        if a.returncode != 0 or b.returncode in (0, 2):
            return s["id"], "DEMO: " + out[0] + "\n" + a.stdout[-1200:] + "\n--\n" + b.stdout[-1200:]
        dst = os.path.join(SEEDED, s["id"])
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(d):
            shutil.copy(os.path.join(d, f), dst)
        if not s.get("nocheck") and not os.environ.get("NOCHECK"):
            e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_WORK=os.path.join(w, "work"))
            os.makedirs(os.path.join(w, "work"), exist_ok=True)
            for p in [s["property"]] + s.get("also", []):
                r = run(["python3", "tools/check.py", p], "/verif", 900, e)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append("%s: exit %d %s" % (p, r.returncode, "CAUGHT " + v[0] if r.returncode == 1 and v else "MISSED " + r.stdout[-300:]))
        return s["id"], "; ".join(out)
    except Exception as e:
        return s["id"], "ERROR %r" % e
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    if len(sys.argv) > 2:
        seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for i, r in ex.map(one, seeds):
            print("%-28s %s" % (i, r), flush=True)
