"""P10: small matrix kernels and generalized inverses."""

import numpy as np
import sympy as sy

from harness.core import arr, close, flat, nums, nznums, ok, raises, spread, st, sub, axes_of
from sigmaepsilon.math.linalg import (
    adj3x3,
    det2x2,
    det3x3,
    generalized_inverse,
    generalized_left_inverse,
    generalized_right_inverse,
    inv,
    inv2x2,
    inv2x2u,
    inv3x3,
    inv3x3_bulk,
    inv3x3_bulk2,
    inv3x3u,
    inv_sym_3x3,
    linspace,
    linspace1d,
    norm,
    norm2d,
    normalize,
    normalize2d,
    random_pos_semidef_matrix,
    random_posdef_matrix,
    unit_basis_vector,
    vpath,
)
from sigmaepsilon.math.linalg import utils
from sigmaepsilon.math.linalg.exceptions import LinalgError


def leibniz(A):
    if len(A) == 1:
        return A[0, 0]
    return sum(
        (-1) ** j * A[0, j] * leibniz(np.delete(A[1:], j, axis=1)) for j in range(len(A))
    )


def stack(d):
    return st.integers(1, 5).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "good": st.lists(axes_of(d), min_size=n, max_size=n),
                "any": st.lists(flat(d * d, nums()), min_size=n, max_size=n),
                "nested": st.booleans(),
                "F": st.booleans(),
                "ints": flat(d * d, st.integers(-9, 9)),
            }
        )
    )


@sub(
    "P10",
    "two",
    stack(2),
    "a matrix that is not symmetric",
    nontrivial=lambda c: any(m[0][1] != m[1][0] for m in c["good"]),
    quick=300,
)
def two(case):
    A = arr(case["good"])
    G = arr(case["any"]).reshape(-1, 2, 2)
    n = len(A)
    close(det2x2(G), [leibniz(g) for g in G], "determinants of a stack")
    for g in G:
        close(det2x2(g), leibniz(g), "determinant")
    close(inv2x2u(A), np.array([np.linalg.inv(a) for a in A]), "inverses of a stack")
    # integers
    N = np.array(case["ints"]).reshape(2, 2)
    close(det2x2(N), leibniz(N), "determinant of integers")
    if leibniz(N) != 0:
        close(inv2x2(N), np.linalg.inv(N), "inverse of integers")
        close(inv2x2u(N), np.linalg.inv(N), "inverse of integers (generalized function)")
    for a in A:
        a = np.asfortranarray(a) if case["F"] else a
        a0 = a.copy()
        close(inv2x2(a), np.linalg.inv(a0), "inverse")
        close(inv2x2u(a), np.linalg.inv(a0), "inverse (generalized function)")
        close(inv(a), np.linalg.inv(a0), "inverse (general)")
        ok(np.array_equal(a, a0), "the input was modified")
    if case["nested"]:
        N = np.array([A, A[::-1]])
        close(inv2x2u(N), np.linalg.inv(N), "inverses of a nested stack")
        close(det2x2(N), [[leibniz(x) for x in y] for y in N], "determinants of a nested stack")


@sub(
    "P10",
    "three",
    stack(3),
    "a matrix that is not symmetric",
    nontrivial=lambda c: any(not np.allclose(m, np.transpose(m)) for m in c["good"]),
    quick=400,
)
def three(case):
    A = arr(case["good"])
    G = arr(case["any"]).reshape(-1, 3, 3)
    close(det3x3(G), [leibniz(g) for g in G], "determinants of a stack")
    ref = np.array([np.linalg.inv(a) for a in A])
    A0 = A.copy()
    close(inv3x3_bulk(A), ref, "inverses of a stack")
    close(inv3x3_bulk2(A), ref, "inverses of a stack (2)")
    close(inv3x3u(A), ref, "inverses of a stack (generalized function)")
    ok(np.array_equal(A, A0), "the input was modified")
    for a, g in zip(A, G):
        a = np.asfortranarray(a) if case["F"] else a
        close(det3x3(g), leibniz(g), "determinant")
        close(inv3x3(a), np.linalg.inv(a), "inverse")
        close(inv(a), np.linalg.inv(a), "inverse (general)")
        # the adjugate is defined for every matrix
        close(adj3x3(g) @ g, leibniz(g) * np.eye(3), "adjugate times matrix", scale=1 + np.abs(g).max() ** 3)
        close(g @ adj3x3(g), leibniz(g) * np.eye(3), "matrix times adjugate", scale=1 + np.abs(g).max() ** 3)
    close(adj3x3(G), [adj3x3(g) for g in G], "adjugates of a stack")
    if case["nested"]:
        N = np.array([A, A[::-1]])
        close(inv3x3u(N), np.linalg.inv(N), "inverses of a nested stack")
        close(det3x3(N), [[leibniz(x) for x in y] for y in N], "determinants of a nested stack")


@sub(
    "P10",
    "symbolic",
    st.fixed_dictionaries({"m": flat(9, st.integers(-4, 4))}),
    "the determinant is not zero",
    nontrivial=lambda c: leibniz(arr(c["m"]).reshape(3, 3)) != 0,
    quick=40,
)
def symbolic(case):
    M = sy.Matrix(3, 3, [sy.Integer(x) for x in case["m"]])
    d, a = inv_sym_3x3(M, as_adj_det=True)
    ok(sy.simplify(d - M.det()) == 0, f"determinant {d}")
    ok(sy.simplify(a - M.adjugate()) == sy.zeros(3), f"adjugate {a}")
    if d != 0:
        ok(sy.simplify(inv_sym_3x3(M) - M.inv()) == sy.zeros(3), "inverse")


@sub(
    "P10",
    "generalized",
    st.tuples(st.integers(1, 5), st.integers(1, 5)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "r": st.just(t[0]),
                "c": st.just(t[1]),
                "Q": axes_of(max(t)),
                "dup": st.booleans(),
                "unit": st.sampled_from([0, 0, 0, -40, -30, -20, 20, 30, 40]),
            }
        )
    ),
    "the matrix is not square",
    nontrivial=lambda c: c["r"] != c["c"],
    quick=300,
)
def generalized(case):
    r, c = case["r"], case["c"]
    M = arr(case["Q"])[:r, :c]
    if np.linalg.svd(M, compute_uv=False)[-1] < 0.05:
        return
    P = generalized_inverse(M)
    ok(P.shape == (c, r), "shape of the generalized inverse")
    close(P, np.linalg.pinv(M), "Moore-Penrose inverse", atol=1e-7)
    close(M @ P @ M, M, "M P M = M", atol=1e-7)
    if r > c:
        close(generalized_left_inverse(M) @ M, np.eye(c), "left inverse", atol=1e-7)
    if c > r:
        close(M @ generalized_right_inverse(M), np.eye(r), "right inverse", atol=1e-7)
    # rank deficiency is reported
    if min(r, c) >= 2 or (r >= 2 and c >= 2):
        D = M.copy()
        if r <= c:
            D[0] = D[1]
        else:
            D[:, 0] = D[:, 1]
        raises(LinalgError, lambda: generalized_inverse(D), "generalized inverse of a deficient matrix")
    # other units change neither the rank nor the inverse
    u = 2.0 ** case["unit"]
    close(generalized_inverse(M * u) * u, np.linalg.pinv(M), "Moore-Penrose inverse in other units", atol=1e-7)


@sub(
    "P10",
    "vectors",
    st.tuples(st.integers(1, 6), st.integers(1, 5)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "n": st.just(t[0]),
                "d": st.just(t[1]),
                "x": flat(6, nums()),
                "p": flat(t[1], nums()),
                "q": flat(t[1], nums()),
                "N": st.integers(2, 9),
                "seed": st.integers(0, 1000),
                "i": st.integers(0, t[1] - 1),
                "value": nznums(),
                "ints": st.booleans(),
            }
        )
    ),
    "vectors of more than one component and more than two points",
    nontrivial=lambda c: c["d"] > 1 and c["N"] > 2,
    quick=400,
)
def vectors(case):
    n, d, N = case["n"], case["d"], case["N"]
    X = spread(case["x"], (n, d))
    lens = np.sqrt((X**2).sum(axis=1))
    close(norm2d(X), lens, "norms of rows")
    for x, l in zip(X, lens):
        close(norm(x), l, "norm")
        if l > 1e-3:
            close(normalize(x), x / l, "normalized vector")
    Y = X[lens > 1e-3]
    if len(Y):
        Y0 = Y.copy()
        close(normalize2d(Y), Y0 / lens[lens > 1e-3][:, None], "normalized rows")
        ok(np.array_equal(Y, Y0), "the input was modified")
    p, q = arr(case["p"]), arr(case["q"])
    if case["ints"]:
        p, q = np.rint(p).astype(int), np.rint(q).astype(int)
    ref = np.array([p + (q - p) * i / (N - 1) for i in range(N)])
    close(vpath(p, q, N), ref, "points of a path")
    L = linspace(p, q, N)
    close(L, ref, "points between points")
    ok(np.array_equal(L[0], p) and np.array_equal(L[-1], q), "end points")
    ref = np.array([p[0] + (q[0] - p[0]) * i / (N - 1) for i in range(N)])
    close(linspace1d(p[0], q[0], N), ref, "numbers between numbers")
    close(linspace(float(p[0]), float(q[0]), N), ref, "numbers between numbers (linspace)")
    u = unit_basis_vector(d, case["i"], case["value"])
    e = np.zeros(d)
    e[case["i"]] = case["value"]
    close(u, e, "unit basis vector")
    np.random.seed(case["seed"])
    S, P = random_pos_semidef_matrix(d), random_posdef_matrix(d, 0.5)
    for M, lo, w in ((S, -1e-9, "semidefinite"), (P, 0.5 - 1e-9, "definite")):
        ok(M.shape == (d, d), f"shape of a random {w} matrix")
        close(M, M.T, f"symmetry of a random {w} matrix")
        ok(np.linalg.eigvalsh(M).min() >= lo, f"smallest eigenvalue of a random {w} matrix")


# ----------------------------------------------------------------- large stacks, other units


@sub(
    "P10",
    "large",
    st.fixed_dictionaries(
        {
            "d": st.sampled_from([2, 3]),
            "n": st.one_of(st.integers(1, 40), st.integers(41, 300)),
            "inner": st.integers(1, 4),
            "two": st.lists(axes_of(2), min_size=3, max_size=3),
            "three": st.lists(axes_of(3), min_size=3, max_size=3),
            "k": flat(4, st.integers(-5, 5)),
            "a": flat(6, nums()),
            "layout": st.sampled_from(["C", "F", "view"]),
        }
    ),
    "more than 40 matrices",
    nontrivial=lambda c: c["n"] > 40,
    quick=150,
    shards=2,
)
def large(case):
    """Many matrices, and matrices of very different magnitudes."""
    d, n = case["d"], case["n"]
    K = arr(case["two"] if d == 2 else case["three"])
    i = np.arange(n)
    A = K[(i * i + i // 3) % 3] * (1 + i % 5)[:, None, None]
    mag = 10.0 ** arr(case["k"])[i % 4]
    A = A * mag[:, None, None]
    N = spread(case["a"], (n, case["inner"], d, d)) * mag[:, None, None, None]

    def lay(M):
        if case["layout"] == "F":
            return np.asfortranarray(M)
        if case["layout"] == "view":
            V = np.zeros((2 * len(M),) + M.shape[1:])
            V[::2] = M
            return V[::2]
        return M

    det, invu = (det2x2, inv2x2u) if d == 2 else (det3x3, inv3x3u)
    unit = mag**d
    close(det(lay(A)) / unit, np.linalg.det(A / mag[:, None, None]), "determinants")
    close(det(lay(N)) / unit[:, None], np.linalg.det(N / mag[:, None, None, None]), "determinants of a nested stack", scale=1 + np.abs(N / mag[:, None, None, None]).max() ** d)
    ref = np.linalg.inv(A / mag[:, None, None])
    fs = [invu] + ([inv3x3_bulk, inv3x3_bulk2] if d == 3 else [])
    for f in fs:
        close(np.asarray(f(lay(A))) * mag[:, None, None], ref, f"{f.__name__}: inverses")
    M = np.stack([A, A[::-1]], axis=1)
    mm = np.stack([mag, mag[::-1]], axis=1)[:, :, None, None]
    close(np.asarray(invu(lay(M))) * mm, np.linalg.inv(M / mm), "inverses of a nested stack")
    one = inv2x2 if d == 2 else inv3x3
    for j in range(0, n, 1 + n // 7):
        close(np.asarray(one(np.ascontiguousarray(A[j]))) * mag[j], ref[j], "inverse")
        close(np.asarray(inv(np.ascontiguousarray(A[j]))) * mag[j], ref[j], "inverse (general)")
    if d == 3:
        adj = np.asarray(adj3x3(lay(A))) / (mag**2)[:, None, None]
        close(adj, ref * np.linalg.det(A / mag[:, None, None])[:, None, None], "adjugates", atol=1e-8)
    # vectors
    X = spread(case["a"], (n, d)) + 0.01
    lens = np.sqrt((X**2).sum(axis=1))
    close(norm2d(X * mag[:, None]) / mag, lens, "norms")
    good = lens > 0.1
    if good.any():
        close(normalize2d((X * mag[:, None])[good]), (X / lens[:, None])[good], "normalized rows")


@sub(
    "P10",
    "products",
    st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 5)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "m": st.just(t[0]),
                "n": st.just(t[1]),
                "k": st.just(t[2]),
                "a": flat(7, nums()),
                "b": flat(7, nums()),
                "w": nznums(0.25, 4),
                "F": st.booleans(),
            }
        )
    ),
    "the matrices are not square",
    nontrivial=lambda c: c["m"] != c["n"],
    quick=120,
)
def products(case):
    """Compiled products of matrices, against plain sums."""
    m, n, k, w = (case[x] for x in "mnkw")
    A, B = spread(case["a"], (m, n)), spread(case["b"], (n, k))
    C, D = spread(case["b"], (m, k)), spread(case["b"] + [0.5], (m, m))
    if case["F"]:
        A, B, C, D = (np.asfortranarray(x) for x in (A, B, C, D))
    s = 1 + np.abs(A).max() ** 2 * (np.abs(B).max() + np.abs(D).max()) * max(1, abs(w)) * m * n

    def mul(X, Y):
        return np.array(
            [[sum(X[i, q] * Y[q, j] for q in range(X.shape[1])) for j in range(Y.shape[1])] for i in range(X.shape[0])]
        )

    close(utils.matmul(A, B), mul(A, B), "A B", scale=s)
    close(utils.matmulw(A, B, w), w * mul(A, B), "w A B", scale=s)
    close(utils.matmulw(A, B), mul(A, B), "A B by default", scale=s)
    close(utils.ATB(A, C), mul(A.T, C), "A^T C", scale=s)
    close(utils.ATBA(A, D), mul(mul(A.T, D), A), "A^T D A", scale=s)
    close(utils.ATBAw(A, D, w), w * mul(mul(A.T, D), A), "w A^T D A", scale=s)
    close(utils.ATBAw(A, D), mul(mul(A.T, D), A), "A^T D A by default", scale=s)
    P = np.eye(m) * (1 + np.abs(D).sum(axis=1).max()) + D
    close(mul(P, utils.linsolve(P, C)), C, "solution of a system", scale=s)
    close(mul(P, inv(P)), np.eye(m), "inverse", scale=s)
