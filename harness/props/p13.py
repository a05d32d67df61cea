"""P13: unique elements of 2d arrays."""

import awkward as ak
import numpy as np

from harness.core import equal, flat, ok, st, sub
from sigmaepsilon.math.arraysetops import unique2d
from sigmaepsilon.math.linalg import JaggedArray

SMALL = st.integers(-4, 6)
LARGE = st.sampled_from([0, 1, -1, 2**31, -(2**31), 2**40, 7, 10**9])


def check(arr_, rows, what, flat_index):
    values = [v for x in rows for v in x]
    vals = sorted(set(values))
    u = unique2d(arr_)
    equal(np.asarray(u), np.array(vals), f"{what}: values")
    u, idx, inv, cnt = unique2d(arr_, return_index=True, return_inverse=True, return_counts=True)
    equal(np.asarray(u), np.array(vals), f"{what}: values with everything")
    equal(np.asarray(cnt), np.array([values.count(v) for v in vals]), f"{what}: counts")
    inv = inv.tolist() if isinstance(inv, np.ndarray) else inv.to_list()
    equal([[vals[i] for i in x] for x in inv], rows, f"{what}: inverse")
    equal(sorted(int(k) for k in idx.keys()), vals, f"{what}: keys of the indices")
    pos = {v: [] for v in vals}
    k = 0
    for i, x in enumerate(rows):
        for j, v in enumerate(x):
            pos[v].append(k if flat_index else [i, j])
            k += 1
    for v in vals:
        equal(np.asarray(idx[v]).tolist(), pos[v], f"{what}: positions of {v}")
    # any combination of the optional outputs, in the documented order
    for m in range(1, 8):
        kw = dict(return_index=bool(m & 1), return_inverse=bool(m & 2), return_counts=bool(m & 4))
        r = unique2d(arr_, **kw)
        ok(len(r) == 1 + bin(m).count("1"), f"{what}: number of outputs with {kw}")
        if m & 4:
            equal(np.asarray(r[-1]), np.asarray(cnt), f"{what}: counts with {kw}")
        if m & 2:
            v = r[1 + bool(m & 1)]
            v = v.tolist() if isinstance(v, np.ndarray) else v.to_list()
            equal(v, inv, f"{what}: inverse with {kw}")
        if m & 1:
            equal(sorted(int(k) for k in r[1].keys()), vals, f"{what}: indices with {kw}")


@sub(
    "P13",
    "regular",
    st.tuples(st.integers(1, 5), st.integers(1, 5), st.booleans()).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "rows": st.lists(flat(t[1], LARGE if t[2] else SMALL), min_size=t[0], max_size=t[0]),
                "order": st.sampled_from(["C", "F", "view"]),
            }
        )
    ),
    "a value occurs more than once",
    nontrivial=lambda c: len({v for x in c["rows"] for v in x}) < sum(len(x) for x in c["rows"]),
    quick=600,
    shards=2,
)
def regular(case):
    rows = case["rows"]
    A = np.array(rows, dtype=np.int64)
    if case["order"] == "F":
        A = np.asfortranarray(A)
    elif case["order"] == "view":
        B = np.zeros((2 * A.shape[0], A.shape[1]), dtype=np.int64)
        B[::2] = A
        A = B[::2]
    check(A, rows, "array", False)
    equal(np.asarray(A).tolist(), rows, "the input was modified")
    check(JaggedArray(np.array(rows, dtype=np.int64)), rows, "jagged array", False)


@sub(
    "P13",
    "jagged",
    st.fixed_dictionaries(
        {
            "rows": st.lists(st.lists(SMALL, max_size=5), min_size=2, max_size=6).filter(
                lambda r: len({len(x) for x in r}) > 1
            )
        }
    ),
    "a value occurs more than once",
    nontrivial=lambda c: len({v for x in c["rows"] for v in x}) < sum(len(x) for x in c["rows"]),
    quick=400,
)
def jagged(case):
    rows = case["rows"]
    a = ak.Array(rows)
    check(a, rows, "Awkward array", True)
    data = np.array([v for x in rows for v in x], dtype=np.int64)
    check(JaggedArray(data, cuts=[len(x) for x in rows]), rows, "jagged array", True)


@sub(
    "P13",
    "large",
    st.fixed_dictionaries(
        {
            "n": st.integers(1, 60),
            "m": st.integers(1, 30),
            "mod": st.integers(1, 400),
            "off": st.integers(-200, 200),
            "a": st.integers(1, 10**6),
            "kind": st.sampled_from(["regular", "jagged", "ak"]),
            "dtype": st.sampled_from(["int64", "int64", "int32", "uint8", "int16"]),
        }
    ),
    "more than 100 items",
    nontrivial=lambda c: c["n"] * c["m"] > 100,
    quick=100,
)
def large(case):
    """Larger arrays, made of a few numbers."""
    n, m = case["n"], case["m"]
    i = np.arange(n * m, dtype=np.int64)
    vals = ((i * i * 31 + i * case["a"]) % 100003 % case["mod"] + case["off"]).astype(case["dtype"])
    if case["kind"] == "regular":
        A = vals.reshape(n, m)
        rows = A.tolist()
        check(A, rows, "array", False)
        equal(A.tolist(), rows, "the input was modified")
        return
    rows, k = [], 0
    for j in range(n):
        w = 1 + (j * 7 + case["a"]) % m
        rows.append(vals[k : k + w].tolist())
        k += w
    if len({len(x) for x in rows}) < 2:
        return
    if case["kind"] == "ak":
        check(ak.Array(rows), rows, "Awkward array", True)
    else:
        check(JaggedArray(np.array([v for x in rows for v in x], dtype=case["dtype"]), cuts=[len(x) for x in rows]), rows, "jagged array", True)


@sub(
    "P13",
    "many",
    st.fixed_dictionaries(
        {
            "n": st.sampled_from([40, 181, 200, 257]),
            "m": st.sampled_from([40, 183, 200, 300]),
            "mod": st.sampled_from([1, 2, 250, 33000, 65600, 100003]),
            "off": st.integers(-(10**6), 10**6),
            "a": st.integers(1, 10**6),
            "jagged": st.booleans(),
        }
    ),
    "more than 32767 items",
    nontrivial=lambda c: c["n"] * c["m"] > 2**15,
    quick=12,
    explicit=[
        {"n": 257, "m": 300, "mod": 100003, "off": 0, "a": 5, "jagged": False},
        {"n": 257, "m": 300, "mod": 1, "off": 0, "a": 5, "jagged": False},
        {"n": 257, "m": 300, "mod": 100003, "off": -7, "a": 5, "jagged": True},
    ],
)
def many(case):
    """Tens of thousands of items, distinct or repeated."""
    n, m = case["n"], case["m"]
    i = np.arange(n * m, dtype=np.int64)
    vals = (i * case["a"]) % 100003 % case["mod"] + case["off"]
    if case["jagged"]:
        cuts = [m - 1, m + 1] * (n // 2) + [m] * (n % 2)
        X = JaggedArray(vals, cuts=cuts)
    else:
        X = vals.reshape(n, m)
    u, idx, inv, cnt = unique2d(X, return_index=True, return_inverse=True, return_counts=True)
    ru, rcnt = np.unique(vals, return_counts=True)
    equal(np.asarray(u), ru, "values")
    equal(np.asarray(cnt), rcnt, "counts")
    inv = inv.tolist() if isinstance(inv, np.ndarray) else inv.to_list()
    equal([len(x) for x in inv], cuts if case["jagged"] else [m] * n, "shape of the inverse")
    finv = np.array([k for x in inv for k in x])
    ok(np.array_equal(ru[finv], vals), "inverse")
    ok(len(idx) == len(ru), "number of keys of the indices")
    order = np.argsort(vals, kind="stable")
    start = np.concatenate([[0], np.cumsum(rcnt)])
    for k in sorted({0, len(ru) // 2, len(ru) - 1, 0 if len(ru) < 2**15 + 2 else 2**15 + 1}):
        p = order[start[k] : start[k + 1]]
        ref = p if case["jagged"] else np.stack([p // m, p % m], axis=1)
        equal(np.asarray(idx[ru[k]]), ref, f"positions of {ru[k]}")
