"""Configurations, objectives and recording for the genetic algorithms (P24-P26)."""

import math

import numpy as np

from harness.core import flat, nums, st
from sigmaepsilon.math.function import Function
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA


@st.composite
def configs(draw, symbolic=False):
    dim = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5]))
    length = draw(st.integers(3 if dim == 1 else 2, 7))
    nPop = draw(st.one_of(st.integers(3, 30), st.integers(3, 30), st.integers(3, 30), st.integers(31, 90)))
    real = -(-nPop // 4) * 4
    return {
        "dim": dim,
        "length": length,
        "nPop": nPop,
        "ranges": [[k * lo, k * (lo + w)] for k in [draw(st.sampled_from([1.0, 1.0, 1.0, 1e4, 1e-4]))] for lo, w in draw(flat(dim, st.tuples(nums(-5, 5, 4), nums(0.25, 8, 4))))],
        "p_c": draw(st.sampled_from([1, 1, 0.7, 0, 0.3])),
        "p_m": draw(st.sampled_from([0.2, 0.05, 0, 0.5, 1])),
        "elitism": draw(
            st.one_of(
                st.sampled_from([1, 1, None, 0.5, 0.25, 0.1, 0.9, 2, 3]),
                st.integers(2, real - 1),
            )
        ),
        "minimize": draw(st.booleans()),
        "fnc": draw(st.sampled_from(["quadratic", "linear", "steps", "constant", "waves"] if not symbolic else ["quadratic", "linear", "constant", "waves"])),
        "coef": draw(flat(5, nums(-2, 2, 4))),
        "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e9, 1e-9])),
        "seed": draw(st.integers(0, 2**16)),
        "maxage": draw(st.integers(0, 6)),
    }


def elite_count(case, nPop):
    e = case["elitism"]
    if e is None:
        return 0
    return int(nPop * e) if e < 1 else int(e)


def valid(case):
    e = case["elitism"]
    real = -(-case["nPop"] // 4) * 4
    return e is None or e < real


def objective(case):
    """Plain arithmetic in a fixed order: the same point has the same value, bit by bit."""
    c = [float(v) for v in case["coef"]]
    k = case["fnc"]
    s = case["scale"]

    def f(x):
        return s * g(x)

    def g(x):
        x = [float(v) for v in x]
        if k == "quadratic":
            return sum((v - a) ** 2 for v, a in zip(x, c)) + x[0]
        if k == "linear":
            return sum(v * a for v, a in zip(x, c)) + 1.0
        if k == "steps":
            return float(sum(math.floor(v * 0.5 + a) for v, a in zip(x, c)))
        if k == "constant":
            return c[0]
        return sum(math.sin(3 * v + a) for v, a in zip(x, c)) + 0.125 * x[0]

    return f


def symbolic(case):
    names = [f"x{i}" for i in range(case["dim"])]
    c = case["coef"]
    k = case["fnc"]
    if k == "quadratic":
        s = " + ".join(f"({v} - ({c[i]}))**2" for i, v in enumerate(names)) + " + x0"
    elif k == "linear":
        s = " + ".join(f"({c[i]})*{v}" for i, v in enumerate(names)) + " + 1.0"
    elif k == "constant":
        s = f"{c[0]}"
    else:
        s = " + ".join(f"sin(3*{v} + ({c[i]}))" for i, v in enumerate(names)) + " + 0.125*x0"
    return Function(f"({case['scale']})*({s})", variables=names)


class Recorder:
    """The objective, with a record of the points it was asked for."""

    def __init__(self, f):
        self.f = f
        self.calls = []

    def __call__(self, x):
        x = np.array(x, dtype=float)
        v = self.f(x)
        self.calls.append((x, v))
        return v


def make(case, fnc=None, **kw):
    np.random.seed(case["seed"])
    rec = Recorder(objective(case)) if fnc is None else fnc
    args = dict(
        length=case["length"],
        nPop=case["nPop"],
        p_c=case["p_c"],
        p_m=case["p_m"],
        elitism=case["elitism"],
        minimize=case["minimize"],
        maxage=case["maxage"],
        maxiter=30,
    )
    args.update(kw)
    return BGA(rec, case["ranges"], **args), rec


def better(case):
    if case["minimize"]:
        return lambda a, b: a < b
    return lambda a, b: a > b


def best_of(case, values):
    return min(values) if case["minimize"] else max(values)
