"""P28: moving least squares against an independent solution and its finite differences."""

import numpy as np

from harness.core import close, equal, flat, nums, ok, spread, st, sub
from harness.lslab import DERIVS, basis, clouds, constant, cubic, exponents, points_of, singular, solve
from harness.props.p27 import compare, evaluate, values_of
from sigmaepsilon.math.approx import (
    ConstantWeightFunction,
    CubicWeightFunction,
    SingularWeightFunction,
    moving_least_squares,
    weighted_least_squares,
)

CASE = st.tuples(
    clouds(),
    st.sampled_from(["cubic", "singular", "constant", "none"]),
    flat(3, nums(2.5, 6, 8)),
    st.sampled_from([0.5, 0.2, 1]),
).map(lambda t: dict(
        t[0],
        weight="singular" if t[1] == "cubic" and t[0]["dim"] == 3 else t[1],
        sd=t[2][: t[0]["dim"]],
        eps=t[3],
        n=t[0]["n"] + 3,
    )
)


def weight(case):
    dim = case["dim"]
    core = [0.0] * dim
    if case["weight"] == "cubic":
        return CubicWeightFunction(core=core, sd=case["sd"])
    if case["weight"] == "singular":
        return SingularWeightFunction(core=core, eps=case["eps"])
    if case["weight"] == "constant":
        return ConstantWeightFunction(dim=dim)
    return None


def reference(case, X, V, at):
    if case["weight"] == "cubic":
        W = [cubic(at, case["sd"], x) for x in X]
    elif case["weight"] == "singular":
        W = [singular(at, case["eps"], x) for x in X]
    else:
        W = [1.0] * len(X)
    C, cond = solve(X, V, W, case["dim"], case["deg"])
    return basis(case["dim"], case["deg"], at) @ C, cond


def skip(case, X, at):
    """Too close to a kink of the second derivatives, or not supported."""
    if case["weight"] == "cubic":
        if case["dim"] == 3:
            return True
        for x in X:
            for c, s, xi in zip(at, case["sd"], x):
                r = abs(c - xi) / s
                if min(abs(r), abs(r - 0.5), abs(r - 1)) < 0.004:
                    return True
    return False


def differences(F, at, d, h=1e-3):
    """Fourth order central differences."""
    at = np.array(at, dtype=float)
    if len(d) == 0:
        return F(at)
    e = np.zeros(len(at))
    e[d[0]] = h

    def g(x):
        return differences(F, x, d[1:], h)

    if len(d) == 2 and d[0] == d[1]:
        return (-F(at + 2 * e) + 16 * F(at + e) - 30 * F(at) + 16 * F(at - e) - F(at - 2 * e)) / (12 * h * h)
    return (-g(at + 2 * e) + 8 * g(at + e) - 8 * g(at - e) + g(at - 2 * e)) / (12 * h)


@sub("P28", "derivatives", CASE, "the weights move with the point", nontrivial=lambda c: c["weight"] in ("cubic", "singular"), quick=600, shards=4)
def derivatives(case):
    X, V = points_of(case), values_of(case)
    V2 = V if V.ndim > 1 else V[:, None]
    at = case["at"]
    _, cond = reference(case, X, V2, at)
    if cond > 200 or skip(case, X, at):
        return
    P = X[:, 0] if case["dim"] == 1 else X
    w = weight(case)
    f = moving_least_squares(P, V, deg=case["deg"], order=case["order"], w=w)
    # the evaluations are independent of each other
    evaluate(f, case, [v + 0.25 for v in at])
    res = evaluate(f, case)
    ds = DERIVS[case["dim"]]
    equal(len(res), len(ds), "number of results")
    F = lambda y: reference(case, X, V2, y)[0]
    scale = max(np.max(np.abs(V2)), 1.0)
    for r, d in zip(res, ds):
        if len(d) > case["order"]:
            ok(r is None, f"derivative {d} was not asked for")
            continue
        e = differences(F, at, d)
        tol = [1e-7, 1e-5, 2e-4][len(d)]
        close(np.asarray(r), e, f"derivative {d}" if d else "value", rtol=tol, atol=tol * scale * (1 if case["weight"] != "singular" else 4 / case["eps"]))
    if w is not None:
        # a fit with the weights centred at the point is the same
        w2 = weight(case)
        w2.core = np.array(at)
        g = weighted_least_squares(P, V, deg=case["deg"], order=case["order"], w=w2)
        for a, b in zip(evaluate(g, case), res):
            if b is not None:
                close(np.asarray(b), np.asarray(a), "fit around the point", rtol=1e-9, atol=1e-9 * scale)


@sub(
    "P28",
    "units",
    st.tuples(CASE, st.integers(-20, 6), st.integers(-30, 30)).map(lambda t: dict(t[0], s=t[1], t=t[2], order=2)),
    "the unit of length is changed and the weights move with the point",
    nontrivial=lambda c: c["s"] != 0 and c["weight"] in ("cubic", "singular"),
    quick=250,
    shards=2,
)
def units(case):
    """The approximation of the same data in other units is the same."""
    X, V = points_of(case), values_of(case)
    at = case["at"]
    _, cond = reference(case, X, V if V.ndim > 1 else V[:, None], at)
    if cond > 50 or (case["weight"] == "cubic" and case["dim"] == 3):
        return
    s, t = 2.0 ** case["s"], 2.0 ** case["t"]
    P = X[:, 0] if case["dim"] == 1 else X
    scaled = dict(case, sd=[v * s for v in case["sd"]], eps=case["eps"] * s)
    f = moving_least_squares(P, V, deg=case["deg"], order=2, w=weight(case))
    g = moving_least_squares(P * s, V * t, deg=case["deg"], order=2, w=weight(scaled))
    scale = max(np.max(np.abs(V)), 1.0) * (1 if case["weight"] != "singular" else 4 / case["eps"] ** 2)
    for a, b, d in zip(evaluate(f, case), evaluate(g, case, [v * s for v in at]), DERIVS[case["dim"]]):
        close(np.asarray(b) / t * s ** len(d), np.asarray(a), f"derivative {d}" if d else "value", rtol=1e-6, atol=1e-6 * scale)


@sub(
    "P28",
    "reproduction",
    st.tuples(CASE, flat(10, nums(-3, 3, 8))).map(lambda t: dict(t[0], c=t[1], order=2)),
    "the weights move with the point",
    nontrivial=lambda c: c["weight"] in ("cubic", "singular"),
    quick=400,
    shards=2,
)
def reproduction(case):
    X = points_of(case)
    k = len(exponents(case["dim"], case["deg"]))
    C = np.array(case["c"][:k])[:, None]
    V = np.array([basis(case["dim"], case["deg"], x) @ C for x in X])
    if case["weight"] == "cubic" and case["dim"] == 3:
        return
    f = moving_least_squares(X[:, 0] if case["dim"] == 1 else X, V[:, 0], deg=case["deg"], w=weight(case))
    for at in (case["at"], [0.5 * v - 0.1 for v in case["at"]]):
        if reference(case, X, V, at)[1] > 200:
            continue
        res = evaluate(f, case, at)
        for r, d in zip(res, DERIVS[case["dim"]]):
            e = basis(case["dim"], case["deg"], at, d) @ C
            tol = [1e-8, 1e-6, 1e-5][len(d)]
            close(np.asarray(r), e, f"derivative {d}" if d else "value", rtol=tol, atol=10 * tol)
