"""P30: Lagrange polynomials against exact rational arithmetic."""

from fractions import Fraction

import numpy as np
import sympy as sy

from harness.core import close, equal, flat, nums, ok, raises, st, sub
from sigmaepsilon.math.approx import approx_Lagrange_1d, gen_Lagrange_1d


def basis(nodes):
    """Exact coefficients (ascending powers) of the Lagrange polynomials of rational nodes."""
    res = []
    for i, xi in enumerate(nodes):
        p = [Fraction(1)]
        for j, xj in enumerate(nodes):
            if i == j:
                continue
            q = [Fraction(0)] * (len(p) + 1)
            for k, c in enumerate(p):
                q[k + 1] += c / (xi - xj)
                q[k] -= c * xj / (xi - xj)
            p = q
        res.append(p)
    return res


def diff(p):
    return [k * c for k, c in enumerate(p)][1:] or [Fraction(0)]


def value(p, x):
    return sum(c * x**k for k, c in enumerate(p))


def size(p, x):
    return float(sum(abs(c * x**k) for k, c in enumerate(p)))


NODES = st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6]).flatmap(
    lambda n: st.lists(st.integers(-24, 24), min_size=n, max_size=n, unique=True)
)

CASE = NODES.flatmap(
    lambda xs: st.fixed_dictionaries(
        {
            "nodes": st.just([x / 8 for x in xs]),
            "kind": st.sampled_from(["list", "tuple", "array", "exact"]),
            "start": st.sampled_from([None, 0, 1, 7]),
            "xsym": st.sampled_from([None, "r", "x"]),
            "fsym": st.sampled_from([None, "N"]),
            "out": st.sampled_from([None, "empty", "used"]),
            "lambdify": st.booleans(),
            "at": flat(3, nums(-4, 4, 16)),
            "values": flat(len(xs), st.one_of(nums(-4, 4, 8), st.sampled_from([0.0, 1.0]))),
        }
    )
)


def at(expr, sym, x):
    return float(sy.sympify(expr).subs(sym, sy.Rational(*Fraction(x).as_integer_ratio())))


@sub("P30", "polynomials", CASE, "at least three nodes in any order", nontrivial=lambda c: len(c["nodes"]) >= 3, quick=160, shards=3)
def polynomials(case):
    xs = [Fraction(x) for x in case["nodes"]]
    n = len(xs)
    arg = {
        "list": lambda: list(case["nodes"]),
        "tuple": lambda: tuple(case["nodes"]),
        "array": lambda: np.array(case["nodes"]),
        "exact": lambda: [sy.Rational(x.numerator, x.denominator) for x in xs],
    }[case["kind"]]()
    kw = {}
    inds = list(range(1, n + 1))
    if case["start"] is not None:
        inds = [case["start"] + 3 * k for k in range(n)][::-1]
        kw["i"] = list(inds)
    for k in ("xsym", "fsym"):
        if case[k]:
            kw[k] = case[k]
    if case["out"] is not None:
        kw["out"] = {} if case["out"] == "empty" else {"other": 1}
    res = gen_Lagrange_1d(x=arg, lambdify=case["lambdify"], **kw)
    if case["out"] is not None:
        ok(res is kw["out"], "the provided dictionary was not used")
        ok(case["out"] == "empty" or res["other"] == 1, "the provided dictionary has lost its items")
    sym = case["xsym"] or "x"
    ref = basis(xs)
    pts = [Fraction(x) for x in case["at"]] + xs
    total = [[0.0] * len(pts) for _ in range(4)]
    for ind, p in zip(inds, ref):
        d = res[ind]
        for k in range(4):
            exact = [value(p, x) for x in pts]
            scale = max(size(p, x) for x in pts)
            got = [at(d[k], sym, x) for x in pts]
            close(got, [float(v) for v in exact], f"derivative {k} of the polynomial of node {ind}", rtol=1e-9, scale=scale)
            total[k] = [a + b for a, b in zip(total[k], got)]
            if case["lambdify"]:
                f = d["fnc"][k]
                for x, v in zip(pts, exact):
                    close(f(float(x)), float(v), f"numerical derivative {k} of node {ind}", rtol=1e-8, scale=scale)
                if k < n:
                    # constants are allowed to come back as scalars
                    many = np.broadcast_to(f(np.array([float(x) for x in pts])), (len(pts),))
                    close(many, [float(v) for v in exact], f"numerical derivative {k} of node {ind} on an array", rtol=1e-8, scale=scale)
            p = diff(p)


@sub(
    "P30",
    "default",
    st.fixed_dictionaries({"n": st.integers(1, 5), "at": nums(-2, 2, 16), "by": st.sampled_from(["N", "i"])}),
    "at least three nodes",
    nontrivial=lambda c: c["n"] >= 3,
    quick=60,
)
def default(case):
    n = case["n"]
    if case["by"] == "N":
        res = gen_Lagrange_1d(N=n)
    else:
        res = gen_Lagrange_1d(i=list(range(1, n + 1)))
    xs = [Fraction(-1)] if n == 1 else [Fraction(-1) + Fraction(2 * k, n - 1) for k in range(n)]
    x = Fraction(case["at"])
    for k, p in enumerate(basis(xs), 1):
        for j in range(4):
            close(at(res[k][j], "x", x), float(value(p, x)), f"derivative {j} of polynomial {k}", rtol=1e-7, scale=1 + size(p, x))
            p = diff(p)


@sub(
    "P30",
    "symbolic",
    st.integers(1, 3).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "nodes": st.lists(st.integers(-16, 16), min_size=n, max_size=n, unique=True).map(lambda v: [x / 4 for x in v]),
                "xsym": st.sampled_from([None, "r"]),
                "at": nums(-4, 4, 16),
            }
        )
    ),
    "at least two nodes",
    nontrivial=lambda c: len(c["nodes"]) >= 2,
    quick=40,
)
def symbolic(case):
    xs = [Fraction(x) for x in case["nodes"]]
    n = len(xs)
    sym = case["xsym"] or "x"
    kw = {"xsym": case["xsym"]} if case["xsym"] else {}
    res = gen_Lagrange_1d(N=n, sym=True, **kw)
    at_nodes = {f"{sym}_{k + 1}": sy.Rational(x.numerator, x.denominator) for k, x in enumerate(xs)}
    x = Fraction(case["at"])
    for k, p in enumerate(basis(xs), 1):
        for j in range(4):
            e = sy.sympify(res[k][j]).subs(at_nodes)
            close(at(e, sym, x), float(value(p, x)), f"derivative {j} of polynomial {k}", rtol=1e-9, scale=1 + size(p, x))
            p = diff(p)


@sub("P30", "interpolation", CASE, "at least three nodes in any order", nontrivial=lambda c: len(c["nodes"]) >= 3, quick=160, shards=2)
def interpolation(case):
    xs = [Fraction(x) for x in case["nodes"]]
    n = len(xs)
    vs = [Fraction(v) for v in case["values"]]
    conv = {"list": list, "tuple": tuple, "array": np.array, "exact": list}[case["kind"]]
    raises(AssertionError, lambda: approx_Lagrange_1d(conv(case["nodes"]), conv(case["values"][:-1])), "different numbers of points and values")
    f = approx_Lagrange_1d(conv(case["nodes"]), conv(case["values"]), lambdify=case["lambdify"])
    if not case["lambdify"]:
        ok(isinstance(f, sy.Expr), f"the interpolation is a {type(f).__name__}")
    ref = basis(xs)
    p = [sum(v * b[k] for v, b in zip(vs, ref)) for k in range(n)]
    pts = [Fraction(x) for x in case["at"]] + xs
    scale = max(sum(abs(float(v)) * size(b, x) for v, b in zip(vs, ref)) for x in pts)
    for x in pts:
        got = f(float(x)) if case["lambdify"] else at(f, "x", x)
        close(got, float(value(p, x)), f"interpolation at {x}", rtol=1e-9, scale=scale)
    for x, v in zip(xs, vs):
        got = f(float(x)) if case["lambdify"] else at(f, "x", x)
        close(got, float(v), f"interpolation at the node {x}", rtol=1e-9, scale=scale)
