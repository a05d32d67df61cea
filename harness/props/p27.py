"""P27: least squares fits against an independent solution."""

import numpy as np

from harness.core import close, equal, flat, nums, ok, raises, spread, st, sub
from harness.lslab import DERIVS, basis, clouds, constant, cubic, exponents, points_of, singular, solve
from sigmaepsilon.math.approx import (
    ConstantWeightFunction,
    CubicWeightFunction,
    SingularWeightFunction,
    least_squares,
    weighted_least_squares,
)


def values_of(case):
    if case["rec"] == 0:
        return spread(case["v"] + [0.8], (case["n"],))
    return spread(case["v"] + [0.8], (case["n"], case["rec"]))


def evaluate(f, case, at=None):
    x = [v * case.get("scale", 1.0) for v in case["at"]] if at is None else at
    return f(float(x[0])) if case["dim"] == 1 else f(np.array(x, dtype=float))


def arguments(X, V, case):
    how = case["how"]
    if case["dim"] == 1 and how != "column":
        X = X[:, 0]
    if how == "lists":
        return X.tolist(), V.tolist()
    if how == "ints":
        return X.astype(int), V.astype(int)
    if how == "float32":
        return X.astype(np.float32), V.astype(np.float32)
    if how == "fortran":
        return np.asfortranarray(X), np.asfortranarray(V)
    return X, V


def compare(res, C, case, at=None, moving=False, what=""):
    """Value and derivatives of the polynomial with coefficients C."""
    x = [v * case.get("scale", 1.0) for v in case["at"]] if at is None else at
    s = case.get("scale", 1.0)
    ds = DERIVS[case["dim"]]
    equal(len(res), len(ds), f"{what}number of results")
    for r, d in zip(res, ds):
        if len(d) > case["order"]:
            ok(r is None, f"{what}derivative {d} was not asked for")
            continue
        if moving and d:
            continue
        e = basis(case["dim"], case["deg"], x, d) @ C
        close(np.asarray(r), e, f"{what}derivative {d}" if d else f"{what}value", rtol=1e-7, atol=1e-7 / s ** len(d))


SCALE = st.sampled_from([1.0, 1.0, 0.125, 8.0])
CASE = st.tuples(
    clouds(), st.sampled_from(["arrays", "lists", "column", "ints", "float32", "fortran"]), st.sampled_from(["least", "weighted", "constant", "value"]), SCALE
).map(lambda t: dict(t[0], how=t[1], fun=t[2], scale=t[3]))


@sub("P27", "unweighted", CASE, "more points than coefficients", nontrivial=lambda c: c["n"] > len(exponents(c["dim"], c["deg"])), quick=700, shards=2)
def unweighted(case):
    X, V = points_of(case), values_of(case)
    if case["how"] == "ints":
        X, V = np.round(X * 8 / case["scale"]), np.round(V)
        case = dict(case, scale=1.0)
    elif case["how"] == "float32":
        X, V = X.astype(np.float32).astype(float), V.astype(np.float32).astype(float)
    C, cond = solve(X, V if V.ndim > 1 else V[:, None], np.ones(len(X)), case["dim"], case["deg"])
    if cond > 1e3:
        return
    a = arguments(X, V, case)
    kw = dict(deg=case["deg"], order=case["order"])
    if case["fun"] == "least":
        f = least_squares(*a, **kw)
    elif case["fun"] == "weighted":
        f = weighted_least_squares(*a, **kw)
    else:
        v = 1.0 if case["fun"] == "constant" else 2.5
        f = weighted_least_squares(*a, w=ConstantWeightFunction(value=v, dim=case["dim"]), **kw)
    compare(evaluate(f, case), C, case)
    for i in range(2):
        compare(evaluate(f, case, X[i]), C, case, X[i])
    compare(evaluate(f, case), C, case, what="again: ")
    if case["dim"] > 1:
        x = [float(v) * case["scale"] for v in case["at"]]
        compare(f(x), C, case, what="at a list: ")


@sub(
    "P27",
    "units",
    st.tuples(clouds(), st.integers(-20, 6), st.integers(-30, 30), st.sampled_from(["least", "cubic", "singular"])).map(
        lambda t: dict(t[0], s=t[1], t=t[2], order=2, fun="singular" if t[3] == "cubic" and t[0]["dim"] == 3 else t[3])
    ),
    "the unit of length is changed",
    nontrivial=lambda c: c["s"] != 0,
    quick=300,
)
def units(case):
    """A fit to the same data in other units is the same fit."""
    X, V = points_of(case), values_of(case)
    dim = case["dim"]
    core = [0.1] * dim
    W = {"least": lambda x: 1.0, "cubic": lambda x: cubic(core, [5.0] * dim, x), "singular": lambda x: singular(core, 0.5, x)}[case["fun"]]
    C, cond = solve(X, V if V.ndim > 1 else V[:, None], [W(x) for x in X], dim, case["deg"])
    if cond > 1e2:
        return
    s, t = 2.0 ** case["s"], 2.0 ** case["t"]
    P = (X[:, 0] if dim == 1 else X) * s
    kw = {}
    if case["fun"] == "cubic":
        kw["w"] = CubicWeightFunction(core=[c * s for c in core], sd=[5.0 * s] * dim)
    elif case["fun"] == "singular":
        kw["w"] = SingularWeightFunction(core=[c * s for c in core], eps=0.5 * s)
    f = (weighted_least_squares if kw else least_squares)(P, V * t, deg=case["deg"], order=2, **kw)
    x = list(case["at"])
    res = evaluate(f, case, [v * s for v in x])
    for r, d in zip(res, DERIVS[dim]):
        if kw and d:
            continue
        e = basis(dim, case["deg"], x, d) @ C
        close(np.asarray(r) / t * s ** len(d), e, f"derivative {d}" if d else "value", rtol=1e-6, atol=1e-6)


@sub(
    "P27",
    "exact",
    st.tuples(clouds(), flat(10, nums(-3, 3, 8)), SCALE).map(lambda t: dict(t[0], c=t[1], order=2, scale=t[2])),
    "quadratic",
    nontrivial=lambda c: c["deg"] == 2,
    quick=300,
)
def exact(case):
    """Polynomials of the degree of the fit are reproduced with their derivatives."""
    X = points_of(case)
    k = len(exponents(case["dim"], case["deg"]))
    C = np.array(case["c"][:k])[:, None]
    V = np.array([basis(case["dim"], case["deg"], x) @ C for x in X])
    _, cond = solve(X, V, np.ones(len(X)), case["dim"], case["deg"])
    if cond > 1e3:
        return
    P = X[:, 0] if case["dim"] == 1 else X
    f = least_squares(P, V[:, 0], deg=case["deg"])
    compare(evaluate(f, case), C, case)
    # lower order polynomials are reproduced by higher order fits
    if case["deg"] == 1:
        C2, cond = solve(X, V, np.ones(len(X)), case["dim"], 2) if len(X) >= len(exponents(case["dim"], 2)) else (None, 1e9)
        if cond < 1e3:
            f = least_squares(P, V[:, 0], deg=2)
            compare(evaluate(f, case), C2, dict(case, deg=2))


@sub(
    "P27",
    "weighted",
    st.tuples(clouds(), st.sampled_from(["cubic", "singular", "constant"]), flat(3, nums(-1, 1, 16)), flat(3, nums(1.5, 4, 8)), st.sampled_from([0.5, 0.1, 1])).map(
        lambda t: dict(t[0], weight="singular" if t[1] == "cubic" and t[0]["dim"] == 3 else t[1], core=t[2][: t[0]["dim"]], sd=t[3][: t[0]["dim"]], eps=t[4])
    ),
    "the weights are different",
    nontrivial=lambda c: c["weight"] != "constant",
    quick=600,
    shards=2,
)
def weighted(case):
    X, V = points_of(case), values_of(case)
    dim, core, sd = case["dim"], case["core"], case["sd"]
    if case["weight"] == "cubic" and dim == 3:
        return
    if case["weight"] == "cubic":
        W = [cubic(core, sd, x) for x in X]
        w = CubicWeightFunction(core=core, sd=sd)
    elif case["weight"] == "singular":
        W = [singular(core, case["eps"], x) for x in X]
        w = SingularWeightFunction(core=core, eps=case["eps"])
    else:
        W = [constant(core, sd, x) for x in X]
        if any(abs(abs(c - xi) - s) < 1e-9 for x in X for c, s, xi in zip(core, sd, x)):
            return
        w = ConstantWeightFunction(core=np.array(core), supportdomain=sd)
    C, cond = solve(X, V if V.ndim > 1 else V[:, None], W, dim, case["deg"])
    if cond > 1e3:
        return
    P = X[:, 0] if dim == 1 else X
    f = weighted_least_squares(P, V, deg=case["deg"], order=case["order"], w=w)
    compare(evaluate(f, case), C, case, moving=case["weight"] != "constant")


@sub(
    "P27",
    "invalid",
    st.fixed_dictionaries({"n": st.integers(3, 9), "d": st.integers(1, 3), "k": st.integers(1, 3)}),
    "always",
    quick=20,
)
def invalid(case):
    X = spread([0.3, 0.7], (case["n"], case["d"]))
    V = np.zeros(case["n"] + case["k"])
    raises(ValueError, lambda: least_squares(X, V), "a different number of points and values")
    raises(ValueError, lambda: weighted_least_squares(X, V), "a different number of points and values")
