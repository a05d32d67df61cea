"""P12: compressed sparse row matrices against dense ones."""

import awkward as ak
import numpy as np
import scipy.sparse as sp
from numba import njit

from harness.core import arr, equal, flat, nums, nznums, ok, spread, st, sub
from sigmaepsilon.math import count_cols, count_cols_csr
from sigmaepsilon.math.linalg import csr_matrix
from sigmaepsilon.math.linalg.sparse.utils import lower_spdata, upper_spdata


@njit
def jit_row(m, i):
    return m.row(i)


@njit
def jit_irow(m, i):
    return m.irow(i)


@njit
def jit_parts(m):
    return m.data, m.indices, m.indptr, m.shape


@njit
def jit_same(m):
    return m


@njit
def jit_matvec(m, x):
    n = m.shape[0]
    res = np.zeros(n)
    for i in range(n):
        row = m.row(i)
        col = m.irow(i)
        for k in range(len(row)):
            res[i] += row[k] * x[col[k]]
    return res


def dense(t):
    n, m = t
    return st.fixed_dictionaries(
        {
            "n": st.just(n),
            "m": st.just(m),
            "x": flat(n * m, st.one_of(st.just(0.0), st.just(0.0), nums())),
            "how": st.sampled_from(["csr", "csc", "coo", "lil", "raw", "rawlist", "raw_noshape"]),
            "v": flat(m, nums()),
            "dtype": st.sampled_from(["float", "int"]),
            "layout": st.sampled_from(["C", "F", "T", "strided", "reversed"]),
        }
    )


def check(C, D, what):
    """C stores (at least) the nonzero values of the dense D."""
    n, m = D.shape
    equal(tuple(C.shape), D.shape, f"{what}: shape")
    equal(np.asarray(C.to_numpy()), D, f"{what}: as a dense array")
    S = C.to_scipy()
    ok(sp.issparse(S) and S.format == "csr", f"{what}: not a SciPy CSR matrix")
    equal(S.toarray(), D, f"{what}: as a SciPy matrix")
    widths = []
    for i in range(n):
        row, col = np.asarray(C.row(i)), np.asarray(C.irow(i))
        equal(row.shape, col.shape, f"{what}: values and columns of row {i}")
        full = np.zeros(m)
        full[col] = row
        equal(full, D[i], f"{what}: row {i}")
        ok(len(set(col.tolist())) == len(col), f"{what}: repeated columns in row {i}")
        equal(np.asarray(jit_row(C, i)), row, f"{what}: row {i} in compiled code")
        equal(np.asarray(jit_irow(C, i)), col, f"{what}: columns of row {i} in compiled code")
        widths.append(len(row))
    equal(np.asarray(count_cols_csr(np.asarray(C.indptr), np.asarray(C.indices))), np.array(widths), f"{what}: widths")
    d, ind, ptr, shp = jit_parts(C)
    equal(np.asarray(d), np.asarray(C.data), f"{what}: data in compiled code")
    equal(np.asarray(ind), np.asarray(C.indices), f"{what}: indices in compiled code")
    equal(np.asarray(ptr), np.asarray(C.indptr), f"{what}: pointers in compiled code")
    equal(tuple(shp), D.shape, f"{what}: shape in compiled code")
    equal(repr(C), f"{n}x{m} CSR matrix of {sum(widths)} values.", f"{what}: description")


@sub(
    "P12",
    "matrices",
    st.tuples(st.integers(1, 6), st.integers(1, 6)).flatmap(dense),
    "zeros and nonzeros are both present",
    nontrivial=lambda c: any(c["x"]) and not all(c["x"]),
    quick=600,
    shards=2,
)
def matrices(case):
    n, m = case["n"], case["m"]
    D = arr(case["x"]).reshape(n, m)
    if case["dtype"] == "int":
        D = np.rint(D * 4)
    src = D.astype(int) if case["dtype"] == "int" else D.copy()
    how = case["how"]
    if how in ("csr", "csc", "coo", "lil"):
        S = getattr(sp, how + "_matrix")(src)
        C = csr_matrix(S)
        equal(len(C.data), int(np.count_nonzero(D)), "number of stored values")
    else:
        S = sp.csr_matrix(src)
        if how == "raw":
            C = csr_matrix(S.data, S.indices, S.indptr, shape=(n, m))
        elif how == "rawlist":
            C = csr_matrix(S.data.tolist(), S.indices.tolist(), S.indptr.tolist(), (n, m))
        else:
            # the shape is inferred from the indices, as in SciPy
            C = csr_matrix(S.data, S.indices, S.indptr)
            if S.nnz == 0:
                return
            D = D[:, : S.indices.max() + 1]
    check(C, D, how)
    x = arr(case["v"])[: D.shape[1]]
    y = np.asarray(jit_matvec(C, x))
    ok(np.allclose(y, D @ x, atol=1e-9), f"matrix-vector product in compiled code: {y} instead of {D @ x}")
    B = jit_same(C)
    ok(isinstance(B, csr_matrix), "a matrix returned from compiled code is not a matrix")
    check(B, D, "returned from compiled code")
    # the matrix does not depend on its source any more
    if how != "lil":
        S.data[...] = 0
    for name in ("indices", "indptr"):
        if hasattr(S, name):
            getattr(S, name)[...] = 0
    check(C, D, f"{how}, the source was overwritten")
    # dense input: every value is stored
    dense = {
        "C": lambda a: a.copy(),
        "F": lambda a: np.array(a, order="F"),
        "T": lambda a: a.T.copy().T,
        "strided": lambda a: np.repeat(a, 2, axis=1)[:, ::2],
        "reversed": lambda a: a[::-1].copy()[::-1],
    }[case.get("layout", "C")](src[:, : D.shape[1]])
    E = csr_matrix(dense)
    dense[...] = 9
    check(E, D, f"from a dense array ({case.get('layout', 'C')})")
    equal(len(E.data), D.size, "number of values stored of a dense array")
    # triangles, both with the diagonal
    S = sp.coo_matrix(D)
    for f, ref in ((lower_spdata, np.tril), (upper_spdata, np.triu)):
        d, i, j = f(S.data, S.row, S.col)
        equal(sp.coo_matrix((d, (i, j)), shape=D.shape).toarray(), ref(D), f.__name__)
    N = csr_matrix.eye(n)
    check(N, np.eye(n), "identity")


@sub(
    "P12",
    "unsorted",
    st.tuples(st.integers(1, 5), st.integers(1, 6)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "m": st.just(t[1]),
                "rows": st.lists(st.permutations(range(t[1])), min_size=t[0], max_size=t[0]),
                "len": flat(t[0], st.integers(0, t[1])),
                "v": flat(5, nznums(0.25, 4)),
                "dtype": st.sampled_from(["float64", "float32", "int64"]),
                "how": st.sampled_from(["scipy", "array", "raw", "scipy_shared"]),
            }
        )
    ),
    "the columns of a row are not in ascending order",
    nontrivial=lambda c: any(list(r[:k]) != sorted(r[:k]) for r, k in zip(c["rows"], c["len"])),
    quick=400,
)
def unsorted(case):
    """Columns in any order. The matrix or the arrays of the user are left alone."""
    m, n = case["m"], len(case["rows"])
    cols = [list(r[:k]) for r, k in zip(case["rows"], case["len"])]
    ind = np.array([j for c in cols for j in c], dtype=np.int32)
    ptr = np.concatenate([[0], np.cumsum([len(c) for c in cols])]).astype(np.int32)
    data = spread(case["v"], (len(ind),)) * 8
    data = np.where(np.abs(data) < 0.5, 3, np.rint(data)).astype(case["dtype"])
    D = np.zeros((n, m))
    for i in range(n):
        D[i, ind[ptr[i] : ptr[i + 1]]] = data[ptr[i] : ptr[i + 1]]
    if case["how"] == "raw":
        keep = data.copy(), ind.copy(), ptr.copy()
        C = csr_matrix(data, ind, ptr, shape=(n, m))
        now = data, ind, ptr
    else:
        S = (sp.csr_array if case["how"] == "array" else sp.csr_matrix)((data.copy(), ind.copy(), ptr.copy()), shape=(n, m))
        keep = S.data.copy(), S.indices.copy(), S.indptr.copy()
        C = csr_matrix(S)
        now = S.data, S.indices, S.indptr
    check(C, D, "columns in any order")
    for a, b, what in zip(now, keep, ("data", "indices", "pointers")):
        equal(a, b, f"{what} of the source")
        ok(a.dtype == b.dtype, f"type of the {what} of the source")


@sub(
    "P12",
    "awkward",
    st.lists(st.lists(nums(), max_size=5), min_size=1, max_size=6).filter(lambda r: any(map(len, r))).map(
        lambda r: {"rows": r}
    ),
    "rows of different widths",
    nontrivial=lambda c: len({len(x) for x in c["rows"]}) > 1,
    quick=300,
)
def awkward(case):
    r = case["rows"]
    D = np.zeros((len(r), max(map(len, r))))
    for i, x in enumerate(r):
        D[i, : len(x)] = x
    a = ak.Array(r)
    C = csr_matrix(a)
    check(C, D, "from an Awkward array")
    equal(np.asarray(count_cols(a)), np.array([len(x) for x in r]), "number of columns")
    for i, x in enumerate(r):
        equal(np.asarray(C.row(i)), arr(x), f"row {i}")


@sub(
    "P12",
    "large",
    st.fixed_dictionaries(
        {
            "n": st.integers(1, 80),
            "m": st.integers(1, 400),
            "a": st.integers(1, 10**6),
            "b": st.integers(0, 10**6),
            "keep": st.sampled_from([1, 3, 10, 40]),
            "how": st.sampled_from(["csr", "csc", "coo", "raw"]),
            "big": st.sampled_from([1.0, 1e-9, 1e12]),
        }
    ),
    "more than 100 places",
    nontrivial=lambda c: c["n"] * c["m"] > 100,
    quick=60,
)
def large(case):
    """Larger matrices, made of a few numbers."""
    n, m = case["n"], case["m"]
    i = np.arange(n * m, dtype=np.int64)
    v = (i * i * 31 + i * case["a"] + case["b"]) % 100003
    D = np.where(v % case["keep"] == 0, (v % 1013 - 500) / 8 * case["big"], 0.0).reshape(n, m)
    if case["how"] == "raw":
        S = sp.csr_matrix(D)
        C = csr_matrix(S.data, S.indices, S.indptr, shape=(n, m))
    else:
        C = csr_matrix(getattr(sp, case["how"] + "_matrix")(D))
    check(C, D, case["how"])
    check(jit_same(C), D, "returned from compiled code")
    x = np.cos(np.arange(m))
    y = np.asarray(jit_matvec(C, x))
    ok(np.allclose(y, D @ x, atol=1e-9 * np.abs(D).max() * m), "matrix-vector product in compiled code")
    E = csr_matrix(D.copy())
    check(E, D, f"from a dense array ({case.get('layout', 'C')})")
