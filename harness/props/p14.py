"""P14: array utilities against plain Python."""

import awkward as ak
import numpy as np

from harness.core import arr, close, equal, flat, nums, nznums, ok, spread, st, sub
from sigmaepsilon.math.decorate import squeeze
from sigmaepsilon.math import (
    ascont,
    atleast1d,
    atleast2d,
    atleast3d,
    atleast4d,
    atleastnd,
    bool_to_float,
    choice,
    clip1d,
    count_cols,
    find1d,
    find2d,
    flatten2d,
    flatten2dC,
    flatten2dF,
    histogram,
    indices_of_equal_rows,
    itype_of_ftype,
    matrixform,
    minmax,
    repeat,
    repeat1d,
    repeat_diagonal_2d,
    tile,
    tile1d,
    to_range_1d,
)
from sigmaepsilon.math.hist import bin_centers


def tables(t, most=6):
    n, m = t
    return st.fixed_dictionaries(
        {
            "n": st.just(n),
            "m": st.just(m),
            "x": flat(n * m, nums()),
            "dx": flat(n * m, nums()),
            "N": st.integers(1, most),
            "ints": st.booleans(),
            "order": st.sampled_from(["C", "F"]),
        }
    )


@sub(
    "P14",
    "repetition",
    st.tuples(st.integers(1, 4), st.integers(1, 4)).flatmap(tables),
    "more than one repetition of more than one value",
    nontrivial=lambda c: c["N"] > 1 and c["n"] * c["m"] > 1,
    quick=300,
)
def repetition(case):
    n, m = case["n"], case["m"]
    repetitions(case, arr(case["x"]).reshape(n, m), arr(case["dx"]).reshape(n, m))


def large_tables(t):
    n, m, N = t
    return st.fixed_dictionaries(
        {
            "n": st.just(n),
            "m": st.just(m),
            "N": st.just(N),
            "x": flat(3, nums()),
            "dx": flat(3, nums()),
            "ints": st.booleans(),
            "order": st.sampled_from(["C", "F"]),
        }
    )


@sub(
    "P14",
    "large",
    st.tuples(st.integers(1, 60), st.integers(1, 40), st.integers(1, 40))
    .filter(lambda t: t[0] * t[1] * t[2] ** 2 <= 200000)
    .flatmap(large_tables),
    "more than 64 values",
    nontrivial=lambda c: c["n"] * c["m"] * c["N"] > 64,
    quick=60,
)
def large(case):
    n, m = case["n"], case["m"]
    repetitions(case, spread(case["x"] + [0.5], (n, m)), spread(case["dx"] + [0.25], (n, m)))


def repetitions(case, A, D):
    n, m, N = case["n"], case["m"], case["N"]
    if case["ints"]:
        A, D = np.rint(A).astype(int), np.rint(D).astype(int)
    A = np.array(A, order=case["order"])
    A0 = A.copy()
    equal(repeat(A, N), np.array([A0] * N), "repeat")
    equal(repeat1d(A[0], N), np.array(A0[0].tolist() * N), "repeat1d")
    equal(tile(A, D, N), np.array([A0 + i * D for i in range(N)]), "tile")
    equal(tile1d(A[0], D[0], N), np.concatenate([A0[0] + i * D[0] for i in range(N)]), "tile1d")
    ref = np.zeros((n * N, m * N), dtype=A.dtype)
    for i in range(N):
        ref[i * n : (i + 1) * n, i * m : (i + 1) * m] = A0
    equal(repeat_diagonal_2d(A, N), ref, "block diagonal matrix")
    rows = A0.tolist()
    c = np.array([v for r in rows for v in r])
    f = np.array([rows[i][j] for j in range(m) for i in range(n)])
    equal(flatten2d(A), c, "flatten, default")
    equal(flatten2d(A, order="C"), c, "flatten by rows")
    equal(flatten2d(A, order="F"), f, "flatten by columns")
    equal(flatten2dC(A), c, "flatten by rows (2)")
    equal(flatten2dF(A), f, "flatten by columns (2)")
    lo, hi = minmax(A)
    equal((lo, hi), (min(c), max(c)), "minmax")
    equal(count_cols(A), np.array([m] * n), "number of columns")
    equal(A, A0, "the input was modified")
    B = ascont(A.T)
    ok(B.flags["C_CONTIGUOUS"], "contiguity")
    equal(B, A0.T, "contiguous copy")


@sub(
    "P14",
    "shapes",
    st.fixed_dictionaries(
        {
            "shape": st.lists(st.integers(1, 3), min_size=0, max_size=4),
            "x": flat(4, nums()),
            "n": st.integers(1, 6),
            "mode": st.sampled_from(["default", "front", "back", "both", "neither"]),
            "list": st.booleans(),
        }
    ),
    "new axes are needed",
    nontrivial=lambda c: len(c["shape"]) < c["n"],
    quick=300,
)
def shapes(case):
    shape = tuple(case["shape"])
    A = spread(case["x"], shape) if shape else float(case["x"][0])
    a = A
    if shape and case["list"]:
        a = A.tolist()
    kw = {
        "default": {},
        "front": {"front": True},
        "back": {"back": True},
        "both": {"front": True, "back": True},
        "neither": {"front": False},
    }[case["mode"]]
    front = case["mode"] in ("default", "front")
    base = np.array([A]) if not shape else A

    def ref(n):
        k = n - base.ndim
        if k <= 0:
            return base
        return base.reshape((1,) * k + base.shape if front else base.shape + (1,) * k)

    equal(atleastnd(a, case["n"], **kw), ref(case["n"]), f"at least {case['n']} axes")
    equal(atleast1d(a), base, "at least one axis")
    equal(atleast2d(a, **kw), ref(2), "at least two axes")
    equal(atleast3d(a, **kw), ref(3), "at least three axes")
    equal(atleast4d(a, **kw), ref(4), "at least four axes")
    if base.ndim <= 2:
        m = matrixform(a)
        equal(m, base if base.ndim == 2 else base.reshape(-1, 1), "matrix form")


@sub(
    "P14",
    "squeezed",
    st.fixed_dictionaries(
        {
            "shapes": st.lists(st.lists(st.integers(1, 3), min_size=0, max_size=4), min_size=1, max_size=3),
            "kind": st.sampled_from(["one", "tuple", "dict", "other"]),
            "default": st.booleans(),
            "given": st.sampled_from([None, True, False]),
        }
    ),
    "some axis is of length one",
    nontrivial=lambda c: any(1 in x for x in c["shapes"]),
    quick=100,
)
def squeezed(case):
    """The decorator that removes axes of length one from results."""
    arrays = [spread([0.5, 1.25, -2], tuple(s)) if s else np.array(1.5) for s in case["shapes"]]
    result = {
        "one": arrays[0],
        "tuple": tuple(arrays) + ("text", 3),
        "dict": dict({str(i): a for i, a in enumerate(arrays)}, text="text"),
        "other": "text",
    }[case["kind"]]

    @squeeze(case["default"])
    def f(x, *, key=None):
        "doc"
        return (x, key)[0]

    kw = {} if case["given"] is None else {"squeeze": case["given"]}
    got = f(result, key=2, **kw)
    do = case["default"] if case["given"] is None else case["given"]
    equal(f.__doc__, "doc", "documentation")
    if not do:
        ok(got is result, "the result was changed")
        return

    def check(g, e):
        if isinstance(e, np.ndarray):
            ok(isinstance(g, np.ndarray), "not an array any more")
            equal(g.shape, tuple(k for k in e.shape if k != 1), "shape")
            equal(g.ravel(), e.ravel(), "values")
        else:
            ok(g == e, "another value")

    if case["kind"] == "tuple":
        equal(len(got), len(result), "number of results")
        for g, e in zip(got, result):
            check(g, e)
    elif case["kind"] == "dict":
        equal(sorted(got), sorted(result), "keys")
        for k in result:
            check(got[k], result[k])
    else:
        check(got, result)


@sub(
    "P14",
    "values",
    st.fixed_dictionaries(
        {
            "x": st.one_of(
                st.lists(nums(), min_size=1, max_size=8),
                st.integers(9, 300).map(lambda n: [((i * 37) % 41 - 20) / 4 for i in range(n)]),
            ),
            "lo": nums(),
            "d": nums(0, 5),
            "s": st.tuples(nums(), nznums()).map(lambda t: [t[0], t[0] + t[1]]),
            "t": st.none() | st.tuples(nums(), nums()).map(list),
            "b": st.lists(st.booleans(), min_size=1, max_size=6),
            "tf": st.tuples(nums(), nums()).map(list),
            "list": st.booleans(),
            "perm": st.permutations(list(range(8))),
        }
    ),
    "more than two values",
    nontrivial=lambda c: len(c["x"]) > 2,
    quick=400,
)
def values(case):
    x = case["x"]
    lo, hi = case["lo"], case["lo"] + case["d"]
    c = clip1d(arr(x), lo, hi)
    equal(c, arr([min(max(v, lo), hi) for v in x]), "clipped values")
    s0, s1 = case["s"]
    t0, t1 = case["t"] if case["t"] is not None else (-1.0, 1.0)
    src = list(x) if case["list"] else arr(x)
    kw = {} if case["t"] is None else {"target": [t0, t1]}
    r = to_range_1d(src, source=[s0, s1], **kw)
    ref = arr([t0 + (v - s0) * (t1 - t0) / (s1 - s0) for v in x])
    close(r, ref, "values in another range", scale=10 + np.abs(ref).max())
    close(to_range_1d(arr([s0, s1]), source=[s0, s1], **kw), [t0, t1], "end points", scale=10 + max(abs(t0), abs(t1)) * 20)
    ints = np.rint(arr(x)).astype(int)
    close(
        to_range_1d(ints, source=[s0, s1], **kw),
        arr([t0 + (v - s0) * (t1 - t0) / (s1 - s0) for v in ints]),
        "integers in another range",
        scale=10 + np.abs(ref).max(),
    )
    b = case["b"]
    T, F = case["tf"]
    for src in (b, np.array(b)):
        equal(bool_to_float(src, T, F), arr([T if v else F for v in b]), "booleans as numbers")
    equal(bool_to_float(b), arr([1.0 if v else 0.0 for v in b]), "booleans as numbers, default")
    space = np.array(sorted(case["perm"][:6])) * 3 + 1
    perm = np.array(case["perm"])
    space = perm * 3 + 1
    q = np.sort(space)[: 1 + len(x) % 8]
    equal(np.asarray(find1d(q, space)).astype(int), np.array([space.tolist().index(v) for v in q]), "positions")
    Q = np.array([q, q[::-1]])
    equal(
        np.asarray(find2d(Q, space)).astype(int),
        np.array([[space.tolist().index(v) for v in z] for z in Q]),
        "positions, 2d",
    )
    equal(itype_of_ftype(np.float32), np.int32, "integer type of a 32 bit float")
    equal(itype_of_ftype(np.float64), np.int64, "integer type of a 64 bit float")


@sub(
    "P14",
    "rows",
    st.tuples(st.integers(1, 3), st.integers(1, 14), st.integers(1, 14)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "x": st.lists(flat(t[0], st.integers(0, 2)), min_size=t[1], max_size=t[1]),
                "y": st.lists(flat(t[0], st.integers(0, 2)), min_size=t[2], max_size=t[2]),
                "dtype": st.sampled_from(["int", "float", "int32", "mixed", "uint8", "uint64"]),
                "eps": st.sampled_from([0.0, 1e-14, 0.25]),
            }
        )
    ),
    "equal rows at different positions",
    nontrivial=lambda c: any(a == b and i != j for i, a in enumerate(c["x"]) for j, b in enumerate(c["y"])),
    quick=500,
)
def rows(case):
    x, y = case["x"], case["y"]
    if case["dtype"] == "int":
        X, Y = np.array(x), np.array(y)
        eps = 0
    elif case["dtype"] in ("int32", "uint8", "uint64"):
        X, Y = np.array(x, dtype=case["dtype"]), np.array(y, dtype=case["dtype"])
        eps = 0
    else:
        eps = case["eps"]
        X, Y = arr(x) * 0.5, arr(y) * 0.5 + eps
        if case["dtype"] == "mixed":
            X, Y = np.array(x), arr(y) + eps
    i, j = indices_of_equal_rows(X, Y)
    pairs = sorted(zip(np.asarray(i).tolist(), np.asarray(j).tolist()))
    ref = sorted(
        (a, b) for a in range(len(x)) for b in range(len(y)) if x[a] == y[b] and eps < 1e-3
    )
    equal(pairs, ref, "pairs of equal rows")
    if eps >= 0.25:
        i, j = indices_of_equal_rows(X, Y, tol=eps * len(x[0]) + 1e-9)
        pairs = set(zip(np.asarray(i).tolist(), np.asarray(j).tolist()))
        for a in range(len(x)):
            for b in range(len(y)):
                if np.abs(X[a] - Y[b]).sum() <= eps * len(x[0]):
                    ok((a, b) in pairs, f"rows {a}, {b} are equal within the tolerance")


@sub(
    "P14",
    "histograms",
    st.fixed_dictionaries(
        {
            "x": st.lists(nums(), min_size=1, max_size=20),
            "bins": st.integers(1, 6),
            "edges": st.none() | st.lists(st.integers(-5, 5), min_size=2, max_size=6, unique=True).map(sorted),
        }
    ),
    "more than one bin",
    nontrivial=lambda c: (c["edges"] is not None and len(c["edges"]) > 2) or c["bins"] > 1,
    quick=200,
)
def histograms(case):
    x = arr(case["x"])
    bins = case["bins"] if case["edges"] is None else np.array(case["edges"])
    h, e = histogram(x, bins, return_edges=True)
    h2, c = histogram(x, bins)
    equal(h, h2, "counts with and without edges")
    close(c, [(a + b) / 2 for a, b in zip(e[:-1], e[1:])], "centers of bins")
    close(bin_centers(e), c, "centers of edges")
    if case["edges"] is None:
        ok(len(e) == bins + 1 and int(h.sum()) == len(x), "every value is counted")
        equal((float(e[0]), float(e[-1])), (x.min(), x.max()) if x.min() < x.max() else (e[0], e[-1]), "range")
    else:
        ed = case["edges"]
        last = len(ed) - 2
        ref = [
            sum(1 for v in x if a <= v < b or (k == last and v == b))
            for k, (a, b) in enumerate(zip(ed[:-1], ed[1:]))
        ]
        equal(np.asarray(h), np.array(ref), "counts")


@sub(
    "P14",
    "choices",
    st.fixed_dictionaries(
        {
            "seed": st.integers(0, 10**6),
            "n": st.integers(1, 5),
            "size": st.lists(st.integers(1, 4), min_size=1, max_size=3),
            "zero": st.integers(0, 4),
        }
    ),
    "more than one choice",
    nontrivial=lambda c: c["n"] > 1,
    quick=100,
)
def choices(case):
    np.random.seed(case["seed"])
    opts = [i * 10 for i in range(case["n"])]
    a = choice(opts, tuple(case["size"]))
    equal(a.shape, tuple(case["size"]), "shape of the choices")
    ok(set(np.unique(a).tolist()) <= set(opts), "a value that was not offered")
    if case["n"] > 1:
        p = np.ones(case["n"])
        z = case["zero"] % case["n"]
        p[z] = 0
        p /= p.sum()
        a = choice(opts, tuple(case["size"]), p)
        ok(opts[z] not in a.reshape(-1).tolist(), "a value of zero probability was chosen")
