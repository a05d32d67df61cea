"""P17: nearest neighbours against brute force."""

import numpy as np

from harness.core import close, equal, flat, nums, ok, spread, st, sub
from sigmaepsilon.math.knn import k_nearest_neighbours


@st.composite
def clouds(draw, nmax=12):
    dim = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 4, 6]))
    big = draw(st.booleans())
    n = draw(st.integers(1, nmax))
    m = draw(st.integers(1, 6))
    M = draw(st.sampled_from([None, None, None, 20, 70]))
    X = draw(flat(n * dim, nums(-3, 3, 4)))
    Y = draw(flat(m * dim, nums(-4, 4, 4)))
    # sampling points next to the points
    next_to = draw(st.sampled_from([None, None, None, 1e-3, 2.0**-20]))
    return {
        "dim": dim,
        "n": n,
        "m": m,
        "X": X,
        "Y": Y,
        "M": M,
        "each": draw(st.booleans()),
        "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e6, 1e-6])),
        "tree": draw(st.sampled_from([None, None, {}, {"compact_nodes": False}, {"balanced_tree": False}])),
        "N": draw(st.one_of(st.integers(40, 200), st.integers(40, 200), st.integers(40, 200), st.integers(500, 2000))) if big else None,
        "near": next_to,
        "self": draw(st.booleans()) and not next_to,
        "k": draw(st.one_of(st.integers(1, 5), st.integers(1, 20), st.lists(st.integers(1, 20), min_size=1, max_size=3, unique=True))),
        "limit": draw(st.one_of(st.none(), st.integers(1, 40))),
        "p": draw(st.sampled_from([None, None, 1, 2, 3, "inf"])),
        # one sampling point, a list or a grid of them
        "form": draw(st.sampled_from(["list", "list", "list", "one", "grid"])) if not next_to else "list",
        "offset": draw(st.sampled_from([0, 1024, -65536] if next_to else [0, 0, 0, 1024, -65536])),
        "leaf": draw(st.sampled_from([None, 1, 10])),
        "workers": draw(st.sampled_from([None, 1, -1])),
    }


def data(case):
    dim = case["dim"]
    if case["N"] is None:
        X = np.array(case["X"]).reshape(-1, dim)
    else:
        X = spread(case["X"] + [0.375], (case["N"], dim))
    Y = np.array(case["Y"]).reshape(-1, dim)
    if case["M"] is not None:
        Y = spread(case["Y"] + [-0.625], (case["M"], dim))
    if case.get("near"):
        Y = X[: max(1, min(len(X), 60))]
        Y = Y + case["near"] * spread(case["Y"], Y.shape)
    return X, (X if case["self"] else Y)


def distances(X, Y, p=None):
    D = np.abs(Y[:, None, :] - X[None, :, :])
    if p == "inf":
        return D.max(axis=-1)
    return D.sum(axis=-1) if p == 1 else np.cbrt((D**3).sum(axis=-1)) if p == 3 else np.sqrt((D**2).sum(axis=-1))


def limit_of(case, D):
    if case["limit"] is None:
        return None
    # far from every distance
    def one(r, d):
        while np.min(np.abs(d - r)) < 1e-6:
            r += 0.0041
        return r

    r = case["limit"] / 8
    if not case["each"]:
        return one(r, D)
    return np.array([one(r * (1 + i % 3), d) for i, d in enumerate(D)])


@sub(
    "P17",
    "knn",
    clouds(),
    "fewer neighbours than points are asked for, or a limit excludes some of them",
    nontrivial=lambda c: (c["N"] or c["n"]) > 2,
    quick=600,
    shards=2,
)
def knn(case):
    X, Y = data(case)
    n = len(X)
    f = case["scale"]
    D = distances(X, Y, case["p"])
    r = limit_of(case, D)
    ks = case["k"] if isinstance(case["k"], list) else list(range(1, case["k"] + 1))
    S = np.sort(D, axis=1)
    if r is not None:
        S = np.where(S < (r if np.ndim(r) == 0 else r[:, None]), S, np.inf)
    S = np.hstack([S, np.full((len(Y), 20), np.inf)])
    expected = S[:, [k - 1 for k in ks]] * f
    D, X, Y = D * f, (X + case["offset"]) * f, (Y + case["offset"]) * f
    if case["self"]:
        Y = X
    kwargs = {"k": case["k"]}
    if case["leaf"]:
        kwargs["leaf_size"] = case["leaf"]
    if case["workers"]:
        kwargs["workers"] = case["workers"]
    form = case["form"] if not case["self"] else "list"
    lead = {"one": (), "list": (len(Y),), "grid": (len(Y), 1)}[form]
    if form == "one":
        D, Y, expected = D[:1], Y[:1], expected[:1]
        r = r[0] if np.ndim(r) else r
    if r is not None:
        kwargs["max_distance"] = r.reshape(lead) * f if np.ndim(r) else r * f
    tree = None if case["tree"] is None else dict(case["tree"])
    if tree is not None:
        kwargs["tree_kwargs"] = tree
    q = None
    if case["p"]:
        q = {"p": np.inf if case["p"] == "inf" else case["p"]}
        kwargs["query_kwargs"] = q
    X0, Y0 = X.copy(), Y.copy()
    args = (X,) if case["self"] else (X, Y.reshape(lead + Y.shape[1:]))
    d, i = k_nearest_neighbours(*args, return_distance=True, **kwargs)
    j = k_nearest_neighbours(*args, **kwargs)
    equal(np.asarray(j), np.asarray(i), "indices with and without distances")
    equal(X, X0, "points, after the search")
    equal(Y, Y0, "sampling points, after the search")
    equal(tree, case["tree"], "tree options, after the search")
    if q is not None:
        equal(q, {"p": np.inf if case["p"] == "inf" else case["p"]}, "query options, after the search")
    tail = () if case["k"] == 1 else (len(ks),)
    equal(np.shape(i), lead + tail, "shape of the indices")
    equal(np.shape(d), lead + tail, "shape of the distances")
    d = np.asarray(d).reshape(len(Y), -1)
    i = np.asarray(i).reshape(len(Y), -1)
    equal(i.shape, expected.shape, "shape of the indices")
    found = np.isfinite(expected)
    equal(np.isfinite(d), found, "neighbours found")
    equal(i < n, found, "valid indices")
    ok(np.all(i[~found] == n), "missing neighbours are not marked by the number of points")
    # the coordinates are rounded
    tol = (1e-9 + 1e-15 * abs(case["offset"]) * 10) * f
    close(d[found], expected[found], "distances", atol=tol)
    rows = np.repeat(np.arange(len(Y))[:, None], i.shape[1], axis=1)
    close(D[rows[found], i[found]], expected[found], "distances of the points with the returned indices", atol=tol)
    for row in range(len(Y)):
        ids = i[row][found[row]]
        equal(len(set(ids.tolist())), len(ids), "number of different neighbours")
