"""Runs one sub-check (one shard of it) in its own process; see run.py."""

import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
warnings.filterwarnings("ignore")

import numpy as np  # noqa
import sympy.core.random  # noqa

from harness import core  # noqa
from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa

ROUND = 100


def load(prop):
    importlib.import_module(f"harness.props.{prop.lower()}")
    return core.REGISTRY[prop]


def save(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.replace(tmp, path)


class Worker:
    def __init__(self, job):
        self.job = job
        self.sub = load(job["property"])[job["sub"]]
        self.n = 0
        self.nontrivial = set()
        self.samples = []
        self.best = None
        self.cur = open(job["current"], "w")

    def mark(self, case):
        self.cur.seek(0)
        self.cur.truncate()
        self.cur.write(core.dump(case))
        self.cur.flush()

    def execute(self, case):
        self.n += 1
        # what the check sees is what the replay file will contain
        case = json.loads(core.dump(case))
        self.mark(case)
        if self.sub.nontrivial(case):
            h = hashlib.sha1(core.dump(case).encode()).digest()[:8]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 3 and len(self.nontrivial) % 7 == 1:
                    s = core.dump(case)
                    self.samples.append(case if len(s) < 1500 else s[:1500] + "...")
        # SymPy, NumPy and Python draw random numbers: a case is reproducible on its own
        sympy.core.random.seed(1)
        random.seed(1)
        np.random.seed(1)
        try:
            self.sub.check(case)
        except Exception as e:
            tb = traceback.format_exc()
            size = len(core.dump(case))
            if self.best is None or size <= self.best["size"]:
                self.best = {
                    "case": case,
                    "size": size,
                    "error": f"{type(e).__name__}: {e}"[:2000],
                    "trace": tb[-3000:],
                    "round": self.round,
                    "at": self.n,
                }
                save(self.job["failure"], self.best)
            raise

    def explore(self):
        j = self.job
        t0 = time.monotonic()
        self.round = -1
        for case in self.sub.explicit:
            self.execute(case)
        self.round = 0
        stop = False
        while not stop and self.n < j["count"] and time.monotonic() - t0 < j["seconds"]:
            n = min(ROUND, j["count"] - self.n)

            class Out(Exception):
                pass

            @seed(j["seed"] * 1000003 + self.round)
            @settings(
                max_examples=max(n, 1),
                deadline=None,
                database=None,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                report_multiple_bugs=False,
            )
            @given(self.sub.strategy)
            def run(case):
                if self.best is None and time.monotonic() - t0 > j["seconds"]:
                    return
                self.execute(case)

            before = self.n
            run()
            if self.n == before:
                stop = True
            self.round += 1
        return time.monotonic() - t0


def main():
    job = json.load(open(sys.argv[1]))
    try:
        w = Worker(job)
    except BaseException as e:
        traceback.print_exc()
        save(job["result"], {"status": "harness", "error": f"{type(e).__name__}: {e}"})
        return 3
    if "case" in job:
        try:
            w.round = 0
            w.execute(job["case"])
        except Exception:
            save(job["result"], {"status": "failed", **w.best})
            return 1
        save(job["result"], {"status": "passed"})
        return 0
    status = "passed"
    err = None
    try:
        wall = w.explore()
    except BaseException as e:
        wall = 0
        if w.best is None:
            traceback.print_exc()
            status, err = "harness", f"{type(e).__name__}: {e}"
        else:
            status = "failed"
    save(
        job["result"],
        {
            "status": status,
            "error": err,
            "evaluations": w.n,
            "nontrivial": [h.hex() for h in w.nontrivial],
            "samples": w.samples,
            "failure": w.best,
            "wall": wall,
        },
    )
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
