"""
Makes and verifies planted bugs. A bug is described by a small Python file (see --new) that this
script turns into seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}; --verify applies it to a copy
under /tmp, runs the test-suite, the demonstration and the check of its property. Development only.

    python3 tools/seed.py --make bugs.py
    python3 tools/seed.py --verify ID ...
"""

import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ROOT = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]

DEMO = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not
here=$(cd "$(dirname "$0")" && pwd)
NUMBA_CACHE_DIR=$(mktemp -d)
export NUMBA_CACHE_DIR PYTHONDONTWRITEBYTECODE=1
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
/opt/venv/bin/python "$here/demo.py"
"""


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        file = "src/sigmaepsilon/math/" + b["file"]
        src = open("/repo/" + file).read()
        edits = b["edits"]
        new = src
        for o, n in edits:
            assert new.count(o) == 1, (b["id"], new.count(o), o)
            new = new.replace(o, n)
        tmp = f"/tmp/seedmk_{b['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        for s, t in (("a", src), ("b", new)):
            os.makedirs(os.path.dirname(f"{tmp}/{s}/{file}"))
            open(f"{tmp}/{s}/{file}", "w").write(t)
        diff = subprocess.run(["diff", "-u", f"a/{file}", f"b/{file}"], cwd=tmp, capture_output=True, text=True).stdout
        shutil.rmtree(tmp)
        # changed lines must be lines of the original repository
        orig = subprocess.run(["git", "-C", "/repo", "show", f"{ROOT}:{file}"], capture_output=True, text=True).stdout.splitlines()
        rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not rem or any(l not in orig for l in rem):
            print(b["id"], "WARNING: changes lines that are not original:", [l for l in rem if l not in orig])
        out = []
        for l in diff.splitlines():
            if l.startswith("--- ") or l.startswith("+++ "):
                l = l.split("\t")[0]
            out.append(l)
        open(d + "/patch.diff", "w").write("\n".join(out) + "\n")
        r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
        assert r.returncode == 0, (b["id"], r.stderr)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])


def verify(id, tests=True, seeds=(1,)):
    d = os.path.join(SEEDED, id)
    meta = json.load(open(d + "/meta.json"))
    tmp = f"/tmp/seedv_{id}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    res = {"id": id}
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + tmp, shell=True, check=True)
        env = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="agg", NUMBA_CACHE_DIR=tmp + "/nb", PYTHONDONTWRITEBYTECODE="1")
        envp = dict(env, PYTHONPATH="/opt/vp/env:" + tmp + "/src")
        demo = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=tmp, env=envp, capture_output=True, text=True, timeout=300)
        r = demo()
        res["demo_clean"] = r.returncode
        if r.returncode:
            res["demo_out"] = (r.stdout + r.stderr)[-600:]
        subprocess.run(["patch", "-p1", "-s", "-i", d + "/patch.diff"], cwd=tmp, check=True)
        r = demo()
        res["demo_bug"] = r.returncode
        res["demo_msg"] = (r.stdout + r.stderr).strip()[-150:]
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "tests"], cwd=tmp, env=envp, capture_output=True, text=True)
            res["tests"] = r.stdout.strip().splitlines()[-1][-120:]
            if r.returncode:
                res["tests"] += " | " + " ".join(l for l in r.stdout.splitlines() if l.startswith("FAILED"))[:300]
        for s in seeds:
            e2 = dict(os.environ, VERIF_DEV_SRC=tmp + "/src", VERIF_OUT=tmp, VERIF_SHRINK="5", VERIF_PROCS="4")
            r = subprocess.run(["/opt/venv/bin/python", "harness/run.py", meta["property"], "--tier", "quick", "--seed", str(s)], cwd=HERE, env=e2, capture_output=True, text=True)
            res[f"check{s}"] = r.returncode
            lines = r.stdout.strip().splitlines()
            if r.returncode == 1:
                res["how"] = lines[-2][:160] if len(lines) > 1 else ""
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad = res.get("demo_clean") or not res.get("demo_bug") or "failed" in res.get("tests", "") or any(v != 1 for k, v in res.items() if k.startswith("check"))
    print("BAD " if bad else "ok  ", json.dumps(res), flush=True)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "--make":
        make(sys.argv[2])
    else:
        a = sys.argv[2:]
        tests = "--notests" not in a
        a = [x for x in a if not x.startswith("--")]
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda i: verify(i, tests), a or sorted(os.listdir(SEEDED))))
