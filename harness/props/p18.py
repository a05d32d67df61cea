"""P18: the mean of the nearest neighbours."""

import numpy as np

from harness.core import close, equal, flat, nums, ok, spread, st, sub
from harness.props.p17 import distances
from sigmaepsilon.math.approx import MLSApproximator


@st.composite
def cases(draw):
    dim = draw(st.integers(1, 3))
    n = draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(15, 250), st.integers(300, 1500)))
    m = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(6, 60), st.integers(200, 600)))
    return {
        "dim": dim,
        "n": n,
        "m": m,
        "flat": draw(st.booleans()),
        "x": draw(flat(4, nums(-3, 3, 8))),
        "targets": draw(flat(m * dim if m < 6 else 3, nums(-4, 4, 8))),
        "y": draw(flat(3, nums(-4, 4, 8))),
        "shape": draw(st.sampled_from([[], [1], [3], [2, 2], [1, 2], [2, 1, 3], [20], [6, 6]])),
        "dtype": draw(st.sampled_from(["float", "float", "int", "float32"])),
        "k": draw(st.sampled_from([None, 1, 2, 3, 5, 8, 20, 50, 130])),
        "limit": draw(st.one_of(st.none(), st.integers(4, 60))),
        "backend": draw(st.sampled_from([None, "scipy"])),
        "scale": draw(st.sampled_from([1.0, 1.0, 2.0**-20, 2.0**20])),
        "extra": draw(st.lists(nums(-4, 4, 8), min_size=3, max_size=3)),
    }


def points(case):
    X = spread(case["x"] + [0.625], (case["n"], case["dim"]))
    # no two points are at the same distance from a target
    n, d = X.shape
    i = np.arange(n * d).reshape(n, d)
    return X + 0.0137 * ((i * 31) % 17) + 0.00119 * ((i * 13) % 29) + 1e-5 * i * i


def values(case):
    Y = spread(case["y"] + [1.25], (case["n"],) + tuple(case["shape"]))
    if case["dtype"] == "int":
        return np.round(Y * 3).astype(int)
    return Y.astype(case["dtype"])


@sub(
    "P18",
    "mean",
    cases(),
    "the neighbours are a proper subset with more than one point",
    nontrivial=lambda c: 1 < (c["k"] or 4) < c["n"],
    quick=500,
    shards=2,
)
def mean(case):
    X, Y = points(case), values(case)
    if case["m"] < 6:
        T = np.array(case["targets"]).reshape(-1, case["dim"])
    else:
        T = spread(case["targets"] + [0.375], (case["m"], case["dim"]))
    k = case["k"] or 4
    D = distances(X, T)
    S = np.sort(D, axis=1)
    for row in S:
        if k < len(row) and row[k] - row[k - 1] < 1e-9:
            return  # the set of neighbours is not unique
    r = None
    if case["limit"] is not None:
        r = case["limit"] / 8
        while np.min(np.abs(D - r)) < 1e-6:
            r += 0.0041
        if np.any(S[:, 0] >= r):
            r = None  # a target without neighbours
    expected = []
    for row in D:
        ids = [j for j in np.argsort(row)[:k] if r is None or row[j] < r]
        expected.append(np.mean([Y[j].astype(float) for j in ids], axis=0))
    expected = np.squeeze(np.array(expected))
    X, T, r = X * case["scale"], T * case["scale"], None if r is None else r * case["scale"]
    kw = {}
    if case["k"] is not None:
        kw["k"] = case["k"]
    if r is not None:
        kw["max_distance"] = r
    if case["backend"]:
        kw["knn_backend"] = case["backend"]
    one = case["flat"] and case["dim"] == 1
    XS = X[:, 0].copy() if one else X
    XT = T[:, 0].copy() if one else T
    Y0, X0 = Y.copy(), XS.copy()
    A = MLSApproximator(XS, Y, **kw)
    tol = 1e-5 if case["dtype"] == "float32" else 1e-9
    res = A.approximate(XT)
    close(np.asarray(res), expected, "approximation", rtol=tol, atol=tol)
    # the state left behind by one call does not affect the next one
    first = np.copy(res)
    Q = T[::-1] * -0.75 + 0.31 * case["scale"]
    B = MLSApproximator(XS, Y, **kw)
    with np.errstate(all="ignore"):
        q = np.asarray(B.approximate(Q[:, 0].copy() if one else Q))
        ok(np.array_equal(np.asarray(A.approximate(Q[:, 0].copy() if one else Q)), q, equal_nan=True), "other targets: a new approximator gives something else")
    equal(np.asarray(res), first, "the first result, after another approximation")
    close(np.asarray(A.approximate(XT)), expected, "approximation, after other targets", rtol=tol, atol=tol)
    A.approximate(XT[:1] + 0.1 * case["scale"])
    close(np.asarray(A.approximate(XT)), expected, "approximation, repeated", rtol=tol, atol=tol)
    equal(Y, Y0, "source data, after the approximation")
    equal(XS, X0, "source points, after the approximation")
    # reproduces constants
    C = MLSApproximator(XS, np.full(len(X), case["extra"][0]), **kw)
    close(np.asarray(C.approximate(XT)), np.full(np.shape(np.squeeze(T[:, 0])), case["extra"][0]), "constant")
    ok(A.neighbours.shape == A.factors.shape, "shapes of neighbours and factors")
    close(np.asarray(A.factors).sum(axis=-1), np.ones(len(T)), "sum of the factors")
