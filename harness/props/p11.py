"""P11: jagged arrays against lists of lists."""

import copy

import awkward as ak
import numpy as np

from harness.core import equal, flat, nums, ok, st, sub
from sigmaepsilon.math.linalg import JaggedArray

ELEMS = {"int": st.integers(-9, 9), "float": nums()}


def rows_of(kind, min_rows=1, zero=True):
    return st.lists(
        st.lists(ELEMS[kind], min_size=0 if zero else 1, max_size=5), min_size=min_rows, max_size=6
    )


def regular_of(kind):
    return st.tuples(st.integers(1, 5), st.integers(1, 5)).flatmap(
        lambda t: st.lists(flat(t[1], ELEMS[kind]), min_size=t[0], max_size=t[0])
    )


def rows(kind):
    # a row must exist and a value must exist
    return st.one_of(rows_of(kind), rows_of(kind, zero=False), regular_of(kind)).filter(
        lambda r: any(len(x) for x in r)
    )


CASE = st.sampled_from(["int", "float"]).flatmap(
    lambda k: st.fixed_dictionaries(
        {
            "kind": st.just(k),
            "rows": rows(k),
            "more": st.lists(st.one_of(rows(k), rows(k), st.integers(1, 3).map(lambda n: [[]] * n)), max_size=4),
            "how": st.sampled_from(["cuts", "list", "rows", "ak", "ndarray", "cutsarray"]),
            "force": st.booleans(),
            # the types of the items of the stacked arrays can differ
            "types": st.lists(st.sampled_from([k, "float"]), min_size=5, max_size=5),
        }
    )
)


def jagged(r):
    return len({len(x) for x in r}) > 1


def build(r, kind, how, force=True):
    dt = int if kind == "int" else float
    widths = [len(x) for x in r]
    if how == "ndarray" and not jagged(r):
        return JaggedArray(np.array(r, dtype=dt))
    if how == "rows":
        return JaggedArray([np.array(x, dtype=dt) for x in r], force_numpy=force)
    if how == "list":
        return JaggedArray([list(x) for x in r], force_numpy=force)
    if how == "ak":
        return JaggedArray(ak.Array([list(x) for x in r]), force_numpy=force)
    data = np.array([v for x in r for v in x], dtype=dt)
    cuts = np.array(widths) if how == "cutsarray" else widths
    return JaggedArray(data, cuts=cuts, force_numpy=force)


def check(J, r, what):
    widths = [len(x) for x in r]
    equal(J.to_list(), r, f"{what}: rows")
    equal(len(J), len(r), f"{what}: number of rows")
    equal(np.asarray(J.widths()), np.array(widths), f"{what}: widths")
    equal(int(J.size), sum(widths), f"{what}: size")
    equal(bool(J.is_jagged()), jagged(r), f"{what}: is_jagged")
    flatr = np.array([v for x in r for v in x], dtype=float)
    equal(np.asarray(J.flatten(), dtype=float), flatr, f"{what}: flattened")
    cuts, data = J.flatten(return_cuts=True)
    equal(np.asarray(cuts), np.array(widths), f"{what}: cuts")
    equal(np.asarray(data, dtype=float), flatr, f"{what}: flattened with cuts")
    equal(JaggedArray(data, cuts=cuts).to_list(), r, f"{what}: rebuilt from the flat data")
    for i, x in enumerate(r):
        equal([float(v) for v in J[i]], [float(v) for v in x], f"{what}: row {i}")
    shp = J.shape
    equal(shp[0], len(r), f"{what}: first item of the shape")
    if np.ndim(shp[1]) == 0:
        equal([shp[1]] * len(r), widths, f"{what}: second item of the shape")
    else:
        equal(np.asarray(shp[1]), np.array(widths), f"{what}: second item of the shape")
    equal(J.to_ak().to_list(), r, f"{what}: as an Awkward array")
    # dense, the missing values are zeros
    dense = np.zeros((len(r), max(widths)))
    for i, x in enumerate(r):
        dense[i, : len(x)] = x
    equal(np.asarray(J.to_numpy(), dtype=float), dense, f"{what}: as a dense array")
    C = J.to_csr()
    equal(np.asarray(C.to_numpy()), dense, f"{what}: as a sparse matrix")
    equal(tuple(C.shape), dense.shape, f"{what}: shape of the sparse matrix")
    equal(np.asarray(J.to_scipy().toarray()), dense, f"{what}: as a SciPy matrix")
    for i, x in enumerate(r):
        equal(np.asarray(C.row(i)), np.array(x, dtype=float), f"{what}: row {i} of the sparse matrix")
        equal(np.asarray(C.irow(i)), np.arange(len(x)), f"{what}: columns of row {i}")
    equal(J.to_list(), r, f"{what}: rows, after all conversions")


@sub(
    "P11",
    "roundtrip",
    CASE,
    "rows of different widths",
    nontrivial=lambda c: jagged(c["rows"]),
    quick=700,
    shards=2,
)
def roundtrip(case):
    r = case["rows"]
    J = build(r, case["kind"], case["how"], case["force"])
    check(J, r, "array")
    if case["force"] and not jagged(r):
        ok(isinstance(J.to_array(), np.ndarray), "regular data is not a NumPy array")
    for copied in (copy.copy(J), copy.deepcopy(J)):
        ok(type(copied) is JaggedArray, f"the copy is a {type(copied)}")
        check(copied, r, "copy")
    if isinstance(copied.to_array(), np.ndarray) and copied.to_array().size:
        copied[0] = 77
        equal(J.to_list(), r, "rows, after the deep copy was changed")


@sub(
    "P11",
    "stacking",
    CASE,
    "at least two arrays, one of them jagged",
    nontrivial=lambda c: len(c["more"]) >= 1 and (jagged(c["rows"]) or any(jagged(m) for m in c["more"])),
    quick=400,
)
def stacking(case):
    parts = [case["rows"]] + case["more"]
    for i, t in enumerate(case["types"][: len(parts)]):
        if t != case["kind"]:
            parts[i] = [[v + 0.5 for v in x] for x in parts[i]]
    hows = [case["how"], "list", "cuts", "ak", "cutsarray"]
    Js = [
        build(r, case["types"][i], hows[i] if any(map(len, r)) else "cuts", case["force"]) for i, r in enumerate(parts)
    ]
    total = [x for r in parts for x in r]
    for f in (np.vstack, np.concatenate):
        S = f(Js)
        ok(isinstance(S, JaggedArray), f"{f.__name__} does not return a jagged array")
        check(S, total, f.__name__)
    for J, r in zip(Js, parts):
        equal([list(x) for x in J.to_list()], r, "stacked array has changed")


@sub(
    "P11",
    "unique",
    st.fixed_dictionaries(
        {"rows": rows("int"), "how": st.sampled_from(["cuts", "list", "ak", "ndarray"]), "force": st.booleans()}
    ),
    "a value occurs more than once",
    nontrivial=lambda c: len({v for x in c["rows"] for v in x}) < sum(len(x) for x in c["rows"]),
    quick=400,
)
def unique(case):
    r = case["rows"]
    J = build(r, "int", case["how"], case["force"])
    vals = sorted({v for x in r for v in x})
    allv = [v for x in r for v in x]
    equal(np.asarray(np.unique(J)), np.array(vals), "unique values")
    equal(np.asarray(J.unique()), np.array(vals), "unique values (method)")
    u, c = J.unique(return_counts=True)
    equal(np.asarray(u), np.array(vals), "unique values, with counts")
    equal(np.asarray(c), np.array([allv.count(v) for v in vals]), "counts")
    u, inv = J.unique(return_inverse=True)
    inv = inv.tolist() if isinstance(inv, np.ndarray) else inv.to_list()
    equal([[vals[i] for i in x] for x in inv], r, "inverse")


LARGE = st.fixed_dictionaries(
    {
        "n": st.integers(1, 80),
        "w": st.integers(1, 40),
        "a": st.integers(1, 10**6),
        "b": st.integers(0, 10**6),
        "wide": st.sampled_from([0, 3, 30]),
        "kind": st.sampled_from(["int", "float"]),
        "how": st.sampled_from(["cuts", "list", "ak", "cutsarray"]),
        "big": st.sampled_from([1, 1, 10**6, 2**31, 2**45]),
        "parts": st.integers(1, 4),
    }
)


@sub("P11", "large", LARGE, "more than 100 values", nontrivial=lambda c: c["n"] * c["w"] > 200, quick=100)
def large(case):
    """Longer and wider arrays, and larger values, made of a few numbers."""
    n, w = case["n"], case["w"]
    parts = []
    for p in range(case["parts"]):
        r = []
        for i in range(n if p == 0 else n // (p + 1)):
            k = (i * i * 7 + i * case["a"] + p * 5 + case["b"]) % 1009 % (w + 1)
            if case["wide"] and i == case["b"] % n:
                k = int(case["wide"]) * w + 5
            x = [((i * 31 + j * j + j * case["a"]) % 997 - 300) * case["big"] for j in range(k)]
            r.append(x if case["kind"] == "int" else [v / 8 for v in x])
        parts.append(r)
    parts = [r for r in parts if any(map(len, r))]
    if not parts:
        return
    Js = [build(r, case["kind"], case["how"]) for r in parts]
    check(Js[0], parts[0], "array")
    if len(parts) > 1:
        check(np.vstack(Js), [x for r in parts for x in r], "vstack")
        check(np.concatenate(Js), [x for r in parts for x in r], "concatenate")
    if case["kind"] == "int":
        vals, counts = np.unique(np.array([v for x in parts[0] for v in x]), return_counts=True)
        u, c = Js[0].unique(return_counts=True)
        equal(np.asarray(u), vals, "unique values")
        equal(np.asarray(c), counts, "counts")
