"""P33: predicates on arrays, matrices and frames."""

import numpy as np
import sympy as sy

from harness.core import axes_of, equal, flat, givens, is_orthonormal, nums, nznums, ok, raises, st, sub
from sigmaepsilon.math import logical as L
from sigmaepsilon.math.linalg import (
    has_full_column_rank,
    has_full_rank,
    has_full_row_rank,
    is_independent_frame,
    is_normal_frame,
    is_orthonormal_frame,
    is_pos_def,
    is_pos_semidef,
    is_rectangular_frame,
)

# ------------------------------------------------------------------- types of arrays

TYPES = {
    "float": ["float16", "float32", "float64"],
    "int": ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"],
    "bool": ["bool"],
    "other": ["complex64", "complex128", "U3", "object", "datetime64[s]"],
}


@sub(
    "P33",
    "types",
    st.sampled_from(sorted(TYPES)).flatmap(
        lambda k: st.fixed_dictionaries(
            {
                "kind": st.just(k),
                "dtype": st.sampled_from(TYPES[k]),
                "shape": st.lists(st.integers(0, 3), min_size=0, max_size=3),
                "F": st.booleans(),
            }
        )
    ),
    "a non-empty array",
    nontrivial=lambda c: all(c["shape"]),
    quick=200,
)
def types(case):
    a = np.zeros(case["shape"], dtype=case["dtype"], order="F" if case["F"] else "C")
    k, one = case["kind"], len(case["shape"]) == 1
    for f, e in [
        (L.isfloatarray, k == "float"),
        (L.isintegerarray, k == "int"),
        (L.isintarray, k == "int"),
        (L.isboolarray, k == "bool"),
        (L.is1dfloatarray, k == "float" and one),
        (L.is1dintarray, k == "int" and one),
    ]:
        equal(bool(f(a)), e, f"{f.__name__} of {case['dtype']} {case['shape']}")
    equal(bool(L.is_none_or_false(None)), True, "None")
    equal(bool(L.is_none_or_false(False)), True, "False")
    for x in (True, 0, 0.0, "", [], a):
        equal(bool(L.is_none_or_false(x)), False, f"{x!r}")


# ------------------------------------------------------------------------- definiteness


@st.composite
def spectra(draw):
    n = draw(st.integers(1, 5))
    return {
        "n": n,
        "eig": draw(flat(n, st.one_of(nums(0.25, 4, 4), nums(-4, 4, 4)))),
        "angles": draw(flat(n * (n - 1) // 2, st.integers(-24, 24))),
        "skew": draw(st.booleans()),
        "tol": draw(st.sampled_from([0, 0.125, 0.6])),
        "at": draw(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1))),
        "by": draw(nums(0.25, 2, 4)),
        "unit": draw(st.sampled_from([0, 0, -14, -9, -5, 6])),
    }


@sub("P33", "definiteness", spectra(), "two or more dimensions", nontrivial=lambda c: c["n"] > 1, quick=400)
def definiteness(case):
    n, eig = case["n"], np.array(case["eig"])
    R = givens(n, [a * np.pi / 16 for a in case["angles"]])
    A = R @ np.diag(eig) @ R.T
    A = (A + A.T) / 2
    low = eig.min()
    ok(bool(L.issymmetric(A)), "a symmetric matrix")
    equal(bool(L.issymmetric(np.diag(eig))), True, "a diagonal matrix")
    B = A.copy()
    i, j = case["at"]
    B[i, j] += case["by"]
    equal(bool(L.issymmetric(B)), i == j, f"a matrix changed at {i}, {j}")
    # the norm of the difference is sqrt(2) times the change
    equal(bool(L.issymmetric(B, tol=2 * case["by"])), True, "symmetry with a large tolerance")
    equal(bool(L.issymmetric(B, tol=case["by"])), i == j, "symmetry with a tolerance")
    exact = np.diag(eig)  # zero eigenvalues stay exactly zero
    for M, sharp in ((A, False), (exact, True)):
        if sharp or abs(low) > 0.01:
            equal(bool(L.isposdef(M)), bool(low > 0), f"isposdef, least eigenvalue {low}")
            equal(bool(is_pos_def(M)), bool(low > 0), f"is_pos_def, least eigenvalue {low}")
            equal(bool(L.ispossemidef(M)), bool(low >= 0), f"ispossemidef, least eigenvalue {low}")
            equal(bool(is_pos_semidef(M)), bool(low >= 0), f"is_pos_semidef, least eigenvalue {low}")
            N, e = M * 10.0 ** case["unit"], low * 10.0 ** case["unit"]
            equal(bool(L.isposdef(N)), bool(low > 0), f"isposdef, least eigenvalue {e}")
            equal(bool(is_pos_def(N)), bool(low > 0), f"is_pos_def, least eigenvalue {e}")
            equal(bool(L.ispossemidef(N)), bool(low >= 0), f"ispossemidef, least eigenvalue {e}")
            equal(bool(is_pos_semidef(N)), bool(low >= 0), f"is_pos_semidef, least eigenvalue {e}")
        if abs(low - case["tol"]) > 0.01:
            equal(bool(L.isposdef(M, tol=case["tol"])), bool(low > case["tol"]), f"isposdef, least eigenvalue {low}, tol {case['tol']}")


# ------------------------------------------------------------------------------- frames


@st.composite
def frames(draw):
    d = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["orthonormal", "reflected", "rectangular", "skew", "normal", "dependent", "almost", "cancel", "cosines"]))
    base = {"normal": "skew", "dependent": "skew", "almost": "orthonormal", "cancel": "orthonormal", "cosines": "orthonormal"}.get(kind, kind)
    return {
        "d": d,
        "kind": kind,
        "axes": draw(axes_of(d, (base,))),
        "which": draw(st.tuples(st.integers(0, d - 1), st.integers(0, d - 1))),
        "by": draw(st.sampled_from([0.01, 0.1, -0.1, 0.5])),
        "coef": draw(flat(d, nums(-2, 2, 4))),
        "signs": draw(flat(d, st.sampled_from([1, -1]))),
        "k": draw(st.one_of(st.just([0] * d), flat(d, st.integers(-6, 6)))),
    }


@sub("P33", "frames", frames(), "two or more dimensions", nontrivial=lambda c: c["d"] > 1, quick=600)
def frames_(case):
    d, k = case["d"], case["kind"]
    A = np.array(case["axes"], dtype=float)
    i, j = case["which"]
    if k == "normal":
        A = A / np.sqrt((A**2).sum(axis=1))[:, None]
    elif k == "almost":
        # the scalar products of the pairs have both signs and may even sum to zero
        A = A.copy()
        if i == j:
            A[i] *= 1 + case["by"]
        else:
            A[i] = A[i] + case["by"] * A[j]
            others = [m for m in range(d) if m not in (i, j)]
            if others:
                A[others[0]] = A[others[0]] - case["by"] * A[j]
    elif k == "cancel":
        # the scalar products of the pairs sum to zero
        M = np.eye(d)
        a, b = case["by"], case["coef"][0]
        if d >= 3:
            M[1, 0], M[2, 0], M[2, 1] = a, b, -(a + b + a * b)
        A = (M @ A)[np.roll(np.arange(d), i)]
    elif k == "cosines":
        # the cosines of the angles sum to zero
        M = np.eye(d)
        if d >= 3:
            a, b = case["by"] / 2, case["coef"][0] / 8
            M[1, 0], M[2, 0], M[2, 1] = a, b, -a - b
            M = np.linalg.cholesky(M + M.T - np.eye(d))
        A = (M @ A)[np.roll(np.arange(d), i)]
    elif k == "dependent":
        A = A.copy()
        c = np.array(case["coef"])
        c[i] = 0
        A[i] = c @ A
    # the unit of length may be different in each direction
    unit = 10.0 ** np.array(case["k"], dtype=float)
    A = A * unit[:, None]
    G = A @ A.T
    n = np.sqrt(np.diag(G))
    n = np.where(n > 0, n, 1)
    off = np.abs((G - np.diag(np.diag(G))) / np.outer(n, n)).max()
    rect = off < 1e-12
    if not rect and off < 1e-3:
        return
    lens = np.abs(np.sqrt(np.diag(G)) - 1).max()
    norm = lens < 1e-12
    if not norm and lens < 1e-3:
        return
    equal(bool(is_rectangular_frame(A)), bool(rect), f"is_rectangular_frame {A.tolist()}")
    equal(bool(is_normal_frame(A)), bool(norm), f"is_normal_frame {A.tolist()}")
    equal(bool(is_orthonormal_frame(A)), bool(rect and norm), f"is_orthonormal_frame {A.tolist()}")
    det = np.linalg.det(A) ** 2
    if any(case["k"]):
        if np.linalg.det(A / unit[:, None]) ** 2 > 1e-6:
            equal(bool(is_independent_frame(A)), True, f"is_independent_frame {A.tolist()}")
    elif k == "dependent":
        equal(bool(is_independent_frame(A, 1e-9)), False, f"is_independent_frame {A.tolist()}")
    elif det > 1e-6:
        equal(bool(is_independent_frame(A)), True, f"is_independent_frame {A.tolist()}")
        equal(bool(is_independent_frame(A, tol=det * 0.9)), True, f"is_independent_frame {A.tolist()}, lower tol")
        equal(bool(is_independent_frame(A, tol=det * 1.1)), False, f"is_independent_frame {A.tolist()}, higher tol")
    raises(AssertionError, lambda: is_rectangular_frame(A[0]), "a vector")
    raises(AssertionError, lambda: is_rectangular_frame(np.vstack([A, A])), "a matrix that is not square")


# -------------------------------------------------------------------------------- ranks


@sub(
    "P33",
    "ranks",
    st.tuples(st.integers(1, 4), st.integers(1, 4)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "shape": st.just(list(t)),
                "rank": st.integers(0, min(t)),
                "l": flat(16, st.integers(-2, 2)),
                "u": flat(16, st.integers(-2, 2)),
                "pr": st.permutations(range(t[0])),
                "pc": st.permutations(range(t[1])),
                "F": st.booleans(),
            }
        )
    ),
    "a matrix of non-zero rank",
    nontrivial=lambda c: c["rank"] > 0 and max(c["shape"]) > 1,
    quick=300,
)
def ranks(case):
    m, n = case["shape"]
    r = case["rank"]
    Lm = np.tril(np.array(case["l"]).reshape(4, 4), -1)[:m, :m] + np.eye(m, dtype=int)
    Um = np.triu(np.array(case["u"]).reshape(4, 4), 1)[:n, :n] + np.eye(n, dtype=int)
    D = np.zeros((m, n), dtype=int)
    D[range(r), range(r)] = 1
    A = (Lm @ D @ Um)[case["pr"]][:, case["pc"]]
    for M in (A, A.astype(float)):
        M = np.asfortranarray(M) if case["F"] else M
        equal(bool(has_full_row_rank(M)), r == m, f"has_full_row_rank {A.tolist()}")
        equal(bool(has_full_column_rank(M)), r == n, f"has_full_column_rank {A.tolist()}")
        equal(bool(has_full_rank(M)), r == min(m, n), f"has_full_rank {A.tolist()}")
    equal(bool(has_full_rank(sy.Matrix(A.tolist()))), r == min(m, n), f"has_full_rank, symbolic {A.tolist()}")


# ---------------------------------------------------------------------------- closeness


@st.composite
def pairs(draw):
    shape = draw(st.sampled_from([[], [1], [3], [2, 2], [1, 1], [4]]))
    n = int(np.prod(shape))
    return {
        "shape": shape,
        "a": draw(flat(n, st.one_of(nznums(0.25, 64, 4), nznums(0.25, 64, 4), st.just(0.0)))),
        # differences relative to the numbers
        "r": draw(flat(n, st.sampled_from([0, 0, 0, 0, 0.6, 0.4, -0.4, -0.6, 0.8, -2.0]))),
        "d": draw(flat(n, st.sampled_from([0, 0, 0, 1e-12, 1e-9, -1e-9, 1e-7, -1e-6, 1e-4, 0.01, 1.0]))),
        "atol": draw(st.sampled_from(["default", None, 1e-8, 1e-5, 3e-3, 2.0])),
        "rtol": draw(st.sampled_from(["default", None, 1e-10, 1e-5, 3e-3, 0.5])),
        "list": draw(st.booleans()),
    }


@sub("P33", "closeness", pairs(), "arrays that are not equal", nontrivial=lambda c: any(c["d"]) or any(c["r"]), quick=800)
def closeness(case):
    x2 = np.array(case["a"]).reshape(case["shape"])
    x1 = x2 + np.array(case["d"]).reshape(case["shape"])
    x1 = x1 + x2 * np.array(case["r"]).reshape(case["shape"])
    atol = 1e-8 if case["atol"] == "default" else case["atol"]
    rtol = 1e-5 if case["rtol"] == "default" else case["rtol"]
    kw = {k: case[k] for k in ("atol", "rtol") if case[k] != "default"}
    args = (x1.tolist(), x2.tolist()) if case["list"] or not case["shape"] else (x1, x2)
    if atol is None and rtol is None:
        raises(AssertionError, lambda: L.isclose(*args, **kw), "no tolerance at all")
        return
    e = np.ones(x1.shape, dtype=bool)
    for i in np.ndindex(*x1.shape):
        d = abs(float(x1[i]) - float(x2[i]))
        for t in ([] if atol is None else [atol]) + ([] if rtol is None else [rtol * abs(float(x2[i]))]):
            if d and abs(d - t) < 1e-3 * t:
                return
            e[i] = e[i] and d <= t
    r = L.isclose(*args, **kw)
    equal(np.array(r).reshape(e.shape), e, f"isclose {x1.tolist()} {x2.tolist()} {kw}")
    equal(bool(L.allclose(*args, **kw)), bool(e.all()), f"allclose {x1.tolist()} {x2.tolist()} {kw}")
    for k in ("atol", "rtol"):
        for v in (0, -1.0):
            raises(AssertionError, lambda: L.isclose(*args, **{**kw, k: v}), f"{k}={v}")
