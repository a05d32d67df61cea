"""
Runs the check of one property:

    /opt/venv/bin/python /verif/harness/run.py P01 [--tier quick|thorough]
    /opt/venv/bin/python /verif/harness/run.py P01 --replay /verif/replays/P01-xyz.json

Exit 0: the property held on everything explored, exit 1: it is broken (with a VIOLATION
line), any other: the check itself could not be carried out.
"""

import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
HANG = int(os.environ.get("VERIF_HANG", "150"))
OUT = os.environ.get("VERIF_OUT", VERIF)
SHRINK = float(os.environ.get("VERIF_SHRINK", "60"))
MAXPROC = int(os.environ.get("VERIF_PROCS", "6"))


def child_env(tmp):
    env = dict(os.environ)
    env.update(
        NUMBA_CACHE_DIR=os.path.join(tmp, "numba"),
        MPLCONFIGDIR=os.path.join(tmp, "mpl"),
        TMPDIR=tmp,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="agg",
        NUMBA_NUM_THREADS="3",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="3",
    )
    env.pop("PYTHONPATH", None)
    if "VERIF_DEV_SRC" in env:
        env["PYTHONPATH"] = env["VERIF_DEV_SRC"]
    return env


class Job:
    def __init__(self, tmp, spec, index):
        self.spec = dict(spec)
        d = os.path.join(tmp, f"job{index}")
        os.makedirs(d)
        self.dir = d
        for k in ("result", "failure", "current"):
            self.spec[k] = os.path.join(d, k + ".json")
        with open(os.path.join(d, "job.json"), "w") as f:
            json.dump(self.spec, f)
        self.log = open(os.path.join(d, "log"), "w")
        self.t0 = time.monotonic()
        self.outcome = None
        self.t_failure = None
        self.proc = subprocess.Popen(
            [PY, os.path.join(HERE, "worker.py"), os.path.join(d, "job.json")],
            stdout=self.log,
            stderr=subprocess.STDOUT,
            env=child_env(tmp),
            cwd=VERIF,
            start_new_session=True,
        )

    def load(self, k):
        try:
            with open(self.spec[k]) as f:
                return json.load(f)
        except Exception:
            return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def poll(self, shrink=SHRINK):
        """None while running, then ("passed"|"failed"|"hang"|"crash"|"harness", data)"""
        if self.outcome is not None:
            return self.outcome
        now = time.monotonic()
        rc = self.proc.poll()
        if rc is None:
            if os.path.exists(self.spec["failure"]):
                if self.t_failure is None:
                    self.t_failure = now
                if now - self.t_failure > shrink:
                    self.kill()
                    self.outcome = ("failed", {"failure": self.load("failure")})
                    return self.outcome
            try:
                beat = os.path.getmtime(self.spec["current"])
                size = os.path.getsize(self.spec["current"])
            except OSError:
                beat, size = None, 0
            if size and beat and time.time() - beat > HANG and self.t_failure is None:
                case = self.load("current")
                self.kill()
                self.outcome = ("hang", {"case": case})
            elif not size and now - self.t0 > 400:
                self.kill()
                self.outcome = ("harness", {"error": "the worker did not start"})
            return self.outcome
        self.log.flush()
        res = self.load("result")
        if res is not None:
            self.outcome = (res["status"], res)
        elif os.path.exists(self.spec["failure"]):
            self.outcome = ("failed", {"failure": self.load("failure")})
        elif self.load("current") is not None:
            self.outcome = ("crash", {"case": self.load("current"), "rc": rc})
        else:
            self.outcome = ("harness", {"error": f"worker exit {rc}"})
        return self.outcome

    def tail(self):
        try:
            return open(os.path.join(self.dir, "log")).read()[-2500:]
        except Exception:
            return ""


def run_one(tmp, spec, index, limit=None):
    j = Job(tmp, spec, index)
    t0 = time.monotonic()
    while j.poll() is None:
        if limit and time.monotonic() - t0 > limit:
            j.kill()
            return ("timeout", {}), j
        time.sleep(0.1)
    return j.outcome, j


def registry(prop):
    """Names of sub-checks, read in a separate process that may import the code under test."""
    code = (
        "import sys,json,warnings;warnings.filterwarnings('ignore');"
        f"sys.path.insert(0,{VERIF!r});"
        "from harness.worker import load;"
        f"r=load({prop!r});"
        "print('@@'+json.dumps({k:dict(rule=s.rule,quick=s.quick,thorough=s.thorough,"
        "shards=s.shards) for k,s in r.items()}))"
    )
    return code


def known_findings(prop):
    """Lines of /verif/known_findings.jsonl with status 'known'."""
    res = []
    try:
        with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        res.append(d)
    except FileNotFoundError:
        pass
    return res


def write_replay(prop, sub, data, note, case, standalone, seed, tier):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib

    h = hashlib.sha1(json.dumps([sub, case], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{sub}-{h}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "sub": sub,
                "case": case,
                "note": note,
                "standalone": standalone,
                "seed": seed,
                "tier": tier,
                "error": (data or {}).get("error"),
                "trace": (data or {}).get("trace"),
            },
            f,
            indent=1,
        )
    return path


def replay(prop, path):
    spec = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vp_")
    try:
        if not spec.get("standalone", True):
            print("the case fails only after the cases generated before it; rerunning them")
            return check(prop, spec["tier"], spec["seed"], only=spec["sub"])
        out, j = run_one(
            tmp,
            {"property": prop, "sub": spec["sub"], "case": spec["case"], "seed": 0},
            0,
            HANG * 2,
        )
        kind, data = out
        if kind == "passed":
            print(f"{prop}: the replayed case passes")
            return 0
        if kind == "harness":
            print(j.tail())
            return 2
        print(f"{prop}: the replayed case fails ({kind}): {data.get('error')}")
        print(data.get("trace") or "")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, only=None, scale=1.0):
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="vp_")
    try:
        return _check(prop, tier, seed, only, scale, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _check(prop, tier, seed, only, scale, t0, tmp):
    p = subprocess.run(
        [PY, "-c", registry(prop)], env=child_env(tmp), capture_output=True, text=True, cwd=VERIF
    )
    subs = None
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            subs = json.loads(line[2:])
    if subs is None:
        print(p.stdout[-2000:], p.stderr[-3000:])
        print(f"{prop}: the check could not be set up")
        return 2
    if only:
        subs = {k: v for k, v in subs.items() if k == only}

    thorough = tier == "thorough"
    # total time for exploration, with a safe margin below the limit of a check
    per_sub = 600 if thorough else 100
    queue = []
    for name, s in subs.items():
        shards = max(s["shards"], 3 if thorough else 1)
        count = int((s["thorough"] if thorough else s["quick"]) * scale)
        for k in range(shards):
            queue.append(
                {
                    "property": prop,
                    "sub": name,
                    "seed": seed * 101 + k,
                    "count": max(1, count // shards),
                    "seconds": per_sub,
                }
            )
    if thorough:
        rounds = -(-len(queue) // MAXPROC)
        for q in queue:
            q["seconds"] = max(60, 700 // rounds)
    index = 0
    running, done = [], []
    while queue or running:
        while queue and len(running) < MAXPROC:
            running.append(Job(tmp, queue.pop(0), index))
            index += 1
        for j in list(running):
            if j.poll() is not None:
                running.remove(j)
                done.append(j)
                if j.outcome[0] in ("failed", "hang", "crash"):
                    queue = []
                    # let the others go, one violation decides
                    for o in running:
                        o.kill()
                    running = []
                    break
        time.sleep(0.05)

    violation = None
    harness_error = None
    notes = []
    for j in done:
        kind, data = j.outcome
        name = j.spec["sub"]
        if kind == "failed":
            f = data["failure"]
            spec = {"property": prop, "sub": name, "case": f["case"], "seed": 0}
            out, _ = run_one(tmp, spec, index, HANG * 2)
            index += 1
            alone = out[0] not in ("passed", "harness")
            path = write_replay(
                prop, name, f, "generated case, shrunk", f["case"], alone, seed, tier
            )
            violation = (name, f["error"], path)
        elif kind in ("hang", "crash"):
            spec = {"property": prop, "sub": name, "case": data["case"], "seed": 0}
            out, _ = run_one(tmp, spec, index, HANG * 2)
            index += 1
            if out[0] in ("failed", "hang", "crash", "timeout"):
                path = write_replay(prop, name, None, kind, data["case"], True, seed, tier)
                violation = (name, f"{kind} of the code under test", path)
            else:
                # not reproducible: neither confirmed nor a result
                notes.append(f"{name}: unconfirmed {kind}")
        elif kind == "harness":
            harness_error = (name, data.get("error"), j.tail())

    known_lines = []
    if violation is None and harness_error is None:
        for k in known_findings(prop):
            spec = {"property": prop, "sub": k["sub"], "case": k["case"], "seed": 0}
            out, _ = run_one(tmp, spec, index, HANG * 2)
            index += 1
            if out[0] != "passed":
                known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")

    evaluations = 0
    nontrivial = {}
    samples = []
    per = {}
    for j in done:
        data = j.outcome[1]
        n = data.get("evaluations", 0)
        name = j.spec["sub"]
        evaluations += n
        nontrivial.setdefault(name, set()).update(data.get("nontrivial", []))
        per[name] = per.get(name, 0) + n
        for s in data.get("samples", [])[:2]:
            if sum(1 for x in samples if x["sub"] == name) < 2:
                samples.append({"sub": name, "case": s})
    rule = "Hypothesis generates plain-data cases per sub-check; non-trivial: " + "; ".join(
        f"{k}: {v['rule']}" for k, v in subs.items()
    )
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": sum(len(v) for v in nontrivial.values()),
            "rule": rule,
            "samples": samples,
            "per_sub_check": {
                k: {"evaluations": per.get(k, 0), "distinct_nontrivial": len(nontrivial.get(k, ()))}
                for k in subs
            },
        },
        "assumptions": [
            "IEEE doubles; comparisons use tolerances relative to the magnitude of the data",
            "NumPy/SciPy/SymPy/networkx as installed are trusted where used as oracles",
        ]
        + notes,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 0 if violation is None else 1,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for line in known_lines:
        print(line)
    print(
        f"{prop} [{tier}, seed {seed}]: {evaluations} cases, "
        f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
        f"{evidence['wall_s']} s"
    )
    if violation is not None:
        print(f"{prop}/{violation[0]}: {violation[1]}")
        print(f"VIOLATION property={prop} replay={violation[2]}")
        return 1
    if harness_error is not None:
        print(f"{prop}/{harness_error[0]}: harness error {harness_error[1]}\n{harness_error[2]}")
        return 2
    return 0


def setup():
    """Nothing has to be built: the checks import /repo as it is. Sees that they can."""
    tmp = tempfile.mkdtemp(prefix="vp_")
    try:
        code = (
            f"import sys; sys.path.insert(0, {VERIF!r}); import harness.core, hypothesis, numpy;"
            "print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)"
        )
        return subprocess.run([PY, "-c", code], env=child_env(tmp), cwd=VERIF).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="see that the machinery is usable")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run this sub-check only (development)")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.setup:
        return setup()
    if not a.property:
        ap.error("the id of a property is needed")
    if a.replay:
        return replay(a.property, a.replay)
    return check(a.property, a.tier, a.seed, a.only, a.scale)


if __name__ == "__main__":
    sys.exit(main())
