"""P09: direct solution of linear systems with prescribed unknowns."""

import numpy as np

from harness.core import arr, close, fail, flat, nums, nznums, ok, raises, spread, st, sub
from sigmaepsilon.math.linalg.solve import linsolve, reduce


def pivots(A):
    """Smallest pivot of an elimination without row exchanges, relative to the data."""
    A = A.copy()
    p = []
    for i in range(len(A)):
        p.append(abs(A[i, i]))
        if p[-1] < 1e-8:
            break
        for r in range(i + 1, len(A)):
            A[r] -= A[r, i] / A[i, i] * A[i]
    return min(p) if p else 1.0


def system(n):
    k = n * (n - 1) // 2
    return st.fixed_dictionaries(
        {
            "n": st.just(n),
            "L": flat(k, nums(-2, 2, 8)),
            "U": flat(k, nums(-2, 2, 8)),
            "D": flat(n, nznums(0.5, 4, 8)),
            "nrhs": st.sampled_from([0, 1, 2, 3]),
            "b": flat(5, nums()),
            "presc": flat(n, st.integers(0, 2).map(lambda i: i == 0)),
            "vals": flat(n, nums()),
            "method": st.sampled_from(["Jordan", "Gauss-Jordan"]),
            "inplace": st.booleans(),
            "mode": st.sampled_from(["float", "float", "F", "int"]),
        }
    )


def matrices(case):
    n = case["n"]
    L, U = np.eye(n), np.diag(arr(case["D"]))
    k = 0
    for i in range(n):
        for j in range(i):
            L[i, j] = case["L"][k]
            U[j, i] = case["U"][k]
            k += 1
    A = L @ U
    B = spread(case["b"], (n, case["nrhs"])) if case["nrhs"] else spread(case["b"], (n,))
    if case["mode"] == "int":
        A, B = np.rint(4 * A), np.rint(B)
    return A, B


def good(A, free):
    S = A[np.ix_(free, free)]
    return pivots(S) > 0.05 and (len(S) == 0 or np.linalg.cond(S) < 1e5)


@sub(
    "P09",
    "constrained",
    st.integers(1, 7).flatmap(system),
    "at least one prescribed and one free unknown, and admissible pivots",
    nontrivial=lambda c: 0 < sum(c["presc"]) < c["n"]
    and good(matrices(c)[0], [i for i in range(c["n"]) if not c["presc"][i]]),
    quick=1000,
    shards=2,
)
def constrained(case):
    A, B = matrices(case)
    n = case["n"]
    pb = np.array(case["presc"], dtype=bool)
    pv = arr(case["vals"])
    free = np.where(~pb)[0]
    if not good(A, free):
        return
    dt = int if case["mode"] == "int" and not case["inplace"] else float
    a = np.array(A, dtype=dt, order="F" if case["mode"] == "F" else "C")
    b = np.array(B, dtype=dt)
    pb0, pv0 = pb.copy(), pv.copy()
    X, R = linsolve(
        a, b, presc_bool=pb, presc_val=pv, method=case["method"], inplace=case["inplace"]
    )
    B2 = B.reshape(n, -1)
    nr = B2.shape[1]
    ok(X.shape == (n, nr), f"shape {X.shape} of the solution")
    ok(R.shape == (n, nr), f"shape {R.shape} of the residual")
    # reference: the reduced system
    ref = np.zeros((n, nr))
    ref[pb] = pv[pb][:, None]
    if len(free):
        rhs = B2[free] - A[np.ix_(free, pb)] @ ref[pb]
        ref[free] = np.linalg.solve(A[np.ix_(free, free)], rhs)
    m = 1 + np.abs(ref).max()
    ok(np.array_equal(X[pb], ref[pb]), "prescribed unknowns do not have the prescribed values")
    close(X, ref, "constrained solution", scale=m * 1e2)
    close(R, A @ ref - B2, "residuals", scale=m * 1e3)
    ok(np.array_equal(pb, pb0) and np.array_equal(pv, pv0), "the prescriptions were modified")
    if not case["inplace"]:
        ok(np.array_equal(a, A), "the matrix was modified")
        ok(np.array_equal(b, B), "the right hand side was modified")


@sub(
    "P09",
    "unconstrained",
    st.integers(1, 7).flatmap(system),
    "admissible pivots, at least two unknowns",
    nontrivial=lambda c: c["n"] > 1 and good(matrices(c)[0], list(range(c["n"]))),
    quick=600,
)
def unconstrained(case):
    A, B = matrices(case)
    n = case["n"]
    if not good(A, list(range(n))):
        return
    B2 = B.reshape(n, -1)
    ref = np.linalg.solve(A, B2)
    m = (1 + np.abs(ref).max()) * 1e2
    dt = int if case["mode"] == "int" else float
    a, b = A.astype(dt), B.astype(dt)
    for method in ("Jordan", "Gauss-Jordan", "numpy"):
        X = linsolve(a, b, method=method)
        close(np.asarray(X).reshape(n, -1), ref, f"solution with {method}", scale=m)
        ok(np.array_equal(a, A) and np.array_equal(b, B), f"{method} modified its inputs")
    X = linsolve(A.copy(), B.copy(), method=case["method"], inplace=True)
    close(np.asarray(X).reshape(n, -1), ref, "solution in place", scale=m)
    # nothing is prescribed
    none = np.zeros(n, dtype=bool)
    X, R = linsolve(a, b, presc_bool=none, presc_val=np.zeros(n), method=case["method"])
    close(X, ref, "solution with an empty prescription", scale=m)
    close(R, 0 * ref, "residual with an empty prescription", scale=m)
    # reduction keeps the solution
    Ar, Br = reduce(a, B2.astype(dt), method=case["method"])
    ok(np.array_equal(a, A), "reduction modified the matrix")
    close(Ar @ ref, Br, "the reduced system has the same solution", scale=m * 1e2, rtol=1e-8)
    below = np.tril(Ar, -1)
    close(below, 0 * below, "the reduced matrix is upper triangular", scale=m * 1e2)
    if case["method"] == "Jordan":
        off = Ar - np.diag(np.diag(Ar))
        close(off, 0 * off, "the reduced matrix is diagonal", scale=m * 1e2)
    raises(AttributeError, lambda: linsolve(A, B2, method="Cramer"), "unknown method")


def singular(n):
    return st.fixed_dictionaries(
        {
            "n": st.just(n),
            "rows": st.lists(flat(n, st.integers(-3, 3)), min_size=n - 1, max_size=n - 1),
            "w": flat(n - 1, st.integers(-2, 2)),
            "at": st.integers(0, n - 1),
            "b": flat(n, st.integers(-5, 5)),
            "method": st.sampled_from(["Jordan", "Gauss-Jordan", "numpy"]),
        }
    )


@sub(
    "P09",
    "singular",
    st.integers(2, 5).flatmap(singular),
    "a row is a nonzero combination of the others",
    nontrivial=lambda c: any(c["w"]),
    quick=400,
)
def singular_(case):
    rows = arr(case["rows"])
    r = arr(case["w"]) @ rows
    A = np.insert(rows, case["at"], r, axis=0)
    B = arr(case["b"])
    try:
        X = linsolve(A, B, method=case["method"])
    except np.linalg.LinAlgError:
        return
    # roundoff may hide the singularity, but then the solution must at least be huge
    # or satisfy the system; silently wrong moderate numbers are never acceptable
    X = np.asarray(X).reshape(-1)
    if not np.all(np.isfinite(X)):
        fail(f"not a number in the solution of a singular system: {X}")
    res = np.abs(A @ X - B).max()
    if np.abs(X).max() < 1e8 and res > 1e-6:
        fail(f"wrong solution of a singular system: {X}, residual {res}")


# ------------------------------------------------------------- larger and badly scaled systems


@st.composite
def larger(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(13, 60)))
    return {
        "n": n,
        "kind": draw(st.sampled_from(["dominant", "chain", "spd", "triangular", "arrow"])),
        "a": draw(flat(6, nums(-2, 2, 8))),
        "b": draw(flat(5, nums())),
        "nrhs": draw(st.sampled_from([0, 1, 2, 5, 9])),
        "presc": draw(st.sampled_from(["none", "first", "last", "both", "odd", "block", "all", "allbut", "random"])),
        "pick": draw(st.integers(0, 10**6)),
        "rows": draw(st.sampled_from([0, 0, 2, 4])),
        "cols": draw(st.sampled_from([0, 0, 2, 4])),
        "method": draw(st.sampled_from(["Jordan", "Gauss-Jordan"])),
        "inplace": draw(st.booleans()),
        "view": draw(st.booleans()),
    }


def larger_system(case):
    n, kind = case["n"], case["kind"]
    S = spread(case["a"], (n, n))
    if kind == "dominant":
        A = S + np.diag(1 + np.abs(S).sum(axis=1))
    elif kind == "chain":
        k = 1 + np.abs(spread(case["a"], (n + 1,)))
        A = np.diag(k[:-1] + k[1:]) - np.diag(k[1:-1], 1) - np.diag(k[1:-1], -1)
    elif kind == "spd":
        A = S @ S.T / n + np.eye(n)
    elif kind == "triangular":
        A = np.triu(S) / n + np.diag(2 + np.arange(n) % 3) + np.tril(S, -1) * 1e-7
    else:
        A = np.diag(4.0 + np.arange(n))
        A[0] += S[0] / n
        A[:, 0] += S[:, 0] / n
        A[0, 0] = 10 + n
    i = np.arange(n)
    r = 10.0 ** ((i * 7 + case["pick"]) % 3 * case["rows"] - case["rows"])
    c = 10.0 ** ((i * 5 + case["pick"]) % 3 * case["cols"] - case["cols"])
    pb = {
        "none": np.zeros(n, dtype=bool),
        "first": i == 0,
        "last": i == n - 1,
        "both": (i == 0) | (i == n - 1),
        "odd": i % 2 == 1,
        "block": (i >= n // 3) & (i <= n // 2),
        "all": np.ones(n, dtype=bool),
        "allbut": i != case["pick"] % n,
        "random": ((i * i + 3 * i + case["pick"]) % 7) < 3,
    }[case["presc"]]
    return A, r, c, pb


@sub(
    "P09",
    "large",
    larger(),
    "prescribed and free unknowns",
    nontrivial=lambda c: 0 < larger_system(c)[3].sum() < c["n"],
    quick=500,
    shards=2,
)
def large(case):
    """Rows and columns in different units. Scaling does not change the solution."""
    A0, r, c, pb = larger_system(case)
    n = case["n"]
    free = np.where(~pb)[0]
    if len(free) and np.linalg.cond(A0[np.ix_(free, free)]) > 1e4:
        return
    B0 = spread(case["b"], (n, max(1, case["nrhs"])))
    y = spread(case["b"][::-1], (n,))
    # the system in natural units
    ref = np.zeros(B0.shape)
    ref[pb] = y[pb][:, None]
    if len(free):
        ref[free] = np.linalg.solve(A0[np.ix_(free, free)], B0[free] - A0[np.ix_(free, pb)] @ ref[pb])
    # in the units of the user
    A, B, pv = r[:, None] * A0 * c[None, :], r[:, None] * B0, y / c
    if len(free) and (np.abs(np.diag(A))[free] * 1e-3).min() < 1e-11:
        return
    if case["nrhs"] == 0:
        B = B[:, 0]
    a, b = A.copy(), B.copy()
    if case["view"] and not case["inplace"]:
        a = np.zeros((n, 2 * n))[:, ::2]
        a[:] = A
    pv0, pb0 = pv.copy(), pb.copy()
    X, R = linsolve(a, b, presc_bool=pb, presc_val=pv, method=case["method"], inplace=case["inplace"])
    m = (1 + np.abs(ref).max()) * 1e3
    ok(np.array_equal(X[pb], np.broadcast_to(pv[pb][:, None], X[pb].shape)), "prescribed unknowns")
    close(X * c[:, None], ref, "solution in natural units", scale=m)
    close(R / r[:, None], A0 @ ref - B0, "residuals in natural units", scale=m * 10)
    ok(np.array_equal(pv, pv0) and np.array_equal(pb, pb0), "the prescriptions were modified")
    if not case["inplace"]:
        ok(np.array_equal(a, A) and np.array_equal(b, B), "the inputs were modified")
    if case["presc"] == "none":
        for method in ("Jordan", "Gauss-Jordan", "numpy"):
            Z = np.asarray(linsolve(A, B, method=method)).reshape(n, -1)
            close(Z * c[:, None], ref, f"solution with {method}", scale=m)
