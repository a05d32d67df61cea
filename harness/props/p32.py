"""P32: benchmark functions against their textbook formulas, differentiated with jets."""

import numpy as np

from harness.core import close, nums, ok, st, sub
from harness.expr import Jet, const
from sigmaepsilon.math.function import Function
from sigmaepsilon.math.function import functions as F


class J2:
    """Arithmetic of jets with numbers."""

    def __init__(self, j):
        self.j = j

    @staticmethod
    def of(x):
        return x.j if isinstance(x, J2) else const(x, 2)

    def __add__(self, o):
        return J2(self.j + J2.of(o))

    __radd__ = __add__

    def __sub__(self, o):
        return J2(self.j - J2.of(o))

    def __rsub__(self, o):
        return J2(J2.of(o) - self.j)

    def __mul__(self, o):
        return J2(self.j * J2.of(o))

    __rmul__ = __mul__


def rosenbrock(x, y, a=1.0, b=100.0):
    return (a - x) * (a - x) + b * ((y - x * x) * (y - x * x))


def himmelblau(x, y):
    u, v = x * x + y - 11, x + y * y - 7
    return u * u + v * v


def goldstein(x, y):
    s = x + y + 1
    d = 2 * x - 3 * y
    a = 1 + s * s * (19 - 14 * x + 3 * (x * x) - 14 * y + 6 * (x * y) + 3 * (y * y))
    b = 30 + d * d * (18 - 32 * x + 12 * (x * x) + 48 * y - 36 * (x * y) + 27 * (y * y))
    return a * b


def beale(x, y):
    u = 1.5 - x + x * y
    v = 2.25 - x + x * (y * y)
    w = 2.625 - x + x * (y * (y * y))
    return u * u + v * v + w * w


def matyas(x, y):
    return 0.26 * (x * x + y * y) - 0.48 * (x * y)


# name: constructor, formula, minimum, minimizers
TABLE = {
    "Rosenbrock": (F.Rosenbrock, rosenbrock, 0.0, [(1, 1)]),
    "Himmelblau": (
        F.Himmelblau,
        himmelblau,
        0.0,
        [(3, 2), (-2.8051180869527, 3.1313125182506), (-3.7793102533777, -3.2831859912862), (3.5844283403305, -1.8481265269644)],
    ),
    "GoldsteinPrice": (F.GoldsteinPrice, goldstein, 3.0, [(0, -1)]),
    "Beale": (F.Beale, beale, 0.0, [(3, 0.5)]),
    "Matyas": (F.Matyas, matyas, 0.0, [(0, 0)]),
}

_made = {}


def make(case):
    name = case["name"]
    ctor, formula, low, where = TABLE[name]
    if name == "Rosenbrock" and case["ab"] is not None:
        a, b = case["ab"]
        key = (name, a, b)
        g = lambda x, y: rosenbrock(x, y, a, b)
        if key not in _made:
            _made[key] = ctor(a, b)
        return _made[key], g, 0.0, [(a, a * a)]
    if name not in _made:
        _made[name] = ctor()
    return _made[name], formula, low, where


CASE = st.fixed_dictionaries(
    {
        "name": st.sampled_from(sorted(TABLE)),
        "ab": st.one_of(st.none(), st.tuples(nums(-3, 3, 2), nums(0.5, 20, 2)).map(list)),
        "point": st.lists(nums(-5, 5, 32) | nums(-60, 60, 4), min_size=2, max_size=2),
        "array": st.booleans(),
    }
)


@sub("P32", "functions", CASE, "off the axes, with different coordinates", nontrivial=lambda c: c["point"][0] * c["point"][1] != 0 and c["point"][0] != c["point"][1], quick=1200, shards=2)
def functions(case):
    f, g, low, where = make(case)
    ok(isinstance(f, Function), "not a function")
    ok(int(f.dimension) == 2 and [str(v) for v in f.variables] == ["x", "y"], f"variables {f.variables}")
    x = list(case["point"])
    e = np.eye(2)
    j = g(J2(Jet(x[0], e[0], np.zeros((2, 2)))), J2(Jet(x[1], e[1], np.zeros((2, 2))))).j
    # Goldstein-Price has terms of 1e7 that cancel
    m = max(abs(x[0]), abs(x[1]), 1)
    scale = 1 + abs(j.v) + np.abs(j.g).max() + np.abs(j.H).max() + (1e3 * m**8 if case["name"] == "GoldsteinPrice" else 0)
    p = np.array(x) if case["array"] else x
    kw = dict(rtol=1e-9, scale=scale)
    close(float(f(p)), j.v, "value", **kw)
    close(np.asarray(f.g(p), dtype=float), j.g, "gradient", **kw)
    close(np.asarray(f.G(p), dtype=float), j.H, "Hessian", **kw)
    # the minimizers
    ok(f.optText == "min", f"optima are announced as '{f.optText}'")
    opt = sorted(tuple(float(c) for c in o) for o in f.optimums)
    close(np.array(opt), np.array(sorted(where), dtype=float), "minimizers", atol=2e-5)
    for o in opt:
        close(float(f(list(o))), low, f"value at the minimizer {o}", atol=1e-8)
        ok(float(f(list(o))) <= float(f(p)) + 1e-9 * scale, f"the value at {x} is less than at the minimizer {o}")
        close(np.asarray(f.g(list(o)), dtype=float), [0, 0], f"gradient at {o}", atol=2e-3)
