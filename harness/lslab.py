"""Reference least squares fits (P27, P28) and weight functions (P29)."""

import itertools

import numpy as np

from harness.core import flat, nums, spread, st


def exponents(dim, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=dim) if sum(e) <= deg]


def monomial(e, x, d=None):
    """Value of a monomial, or of its derivative by the variables listed in d."""
    e = list(e)
    c = 1.0
    for i in d or ():
        c *= e[i]
        e[i] -= 1
        if c == 0:
            return 0.0
    for xi, k in zip(x, e):
        c *= float(xi) ** k
    return c


def basis(dim, deg, x, d=None):
    return np.array([monomial(e, x, d) for e in exponents(dim, deg)])


DERIVS = {
    1: [(), (0,), (0, 0)],
    2: [(), (0,), (1,), (0, 0), (1, 1), (0, 1)],
    3: [(), (0,), (1,), (2,), (0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)],
}


def solve(X, V, W, dim, deg):
    """Coefficients of the weighted fit by QR/SVD, and the condition of the problem."""
    w = np.sqrt(np.maximum(np.asarray(W, dtype=float), 0))[:, None]
    A = np.array([basis(dim, deg, x) for x in X]) * w
    c, _, rank, s = np.linalg.lstsq(A, V * w, rcond=None)
    cond = s[0] / s[-1] if rank == A.shape[1] and s[-1] > 0 else np.inf
    return c, cond


def cubic(core, sd, x):
    v = 1.0
    for c, s, xi in zip(core, sd, x):
        r = abs(c - xi) / s
        if r <= 0.5:
            v *= 2 / 3 - 4 * r**2 + 4 * r**3
        elif r <= 1:
            v *= 4 / 3 - 4 * r + 4 * r**2 - 4 / 3 * r**3
        else:
            return 0.0
    return v


def singular(core, eps, x):
    return 1 / (sum((c - xi) ** 2 for c, xi in zip(core, x)) + eps**2)


def constant(core, sd, x, value=1.0):
    if sd is None:
        return value
    return value if all(abs(c - xi) <= s for c, s, xi in zip(core, sd, x)) else 0.0


def points_of(case):
    """Points that are neither regular nor degenerate."""
    n, dim = case["n"], case["dim"]
    X = spread(case["x"] + [0.3], (n, dim))
    i = np.arange(n * dim).reshape(n, dim)
    X = X + 0.37 * ((i * 29) % 13) / 13 + 0.11 * ((i * i * 7) % 31) / 31
    m = np.max(np.abs(X))
    return np.round(2 * X / m * 1024) / 1024 * case.get("scale", 1.0)


@st.composite
def clouds(draw, dims=(1, 2, 3)):
    dim = draw(st.sampled_from(list(dims)))
    deg = draw(st.integers(1, 2))
    k = len(exponents(dim, deg))
    return {
        "dim": dim,
        "deg": deg,
        "n": k + draw(st.one_of(st.integers(0, 10), st.integers(0, 10), st.integers(11, 120))),
        "x": draw(flat(5, nums(-2, 2, 16))),
        "v": draw(flat(4, nums(-4, 4, 16))),
        "rec": draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 9])),
        "at": draw(flat(dim, nums(-1.5, 1.5, 32))),
        "order": draw(st.integers(0, 2)),
    }
