"""P31: Gauss quadrature against exact integrals."""

from fractions import Fraction

import numpy as np

from harness.core import close, ok, raises, st, sub
from sigmaepsilon.math.numint import gauss_points, gauss_points_1d, gauss_points_2d, gauss_points_3d


def integral(power):
    return Fraction(2, power + 1) if power % 2 == 0 else Fraction(0)


def rule(case):
    ns = tuple(case["n"])
    if len(ns) == 1:
        r = gauss_points(*ns) if case["via"] else gauss_points_1d(ns[0])
        ok(np.shape(r) == (2, ns[0]), f"shape {np.shape(r)}")
        return np.array(r[0])[:, None], np.array(r[1])
    if case["via"]:
        p, w = gauss_points(*ns)
    else:
        p, w = (gauss_points_2d if len(ns) == 2 else gauss_points_3d)(ns)
    return np.array(p), np.array(w)


CASE = st.integers(1, 3).flatmap(
    lambda d: st.lists(
        st.one_of(st.integers(1, 12 if d == 1 else 7), st.integers(1, [60, 30, 12][d - 1])), min_size=d, max_size=d
    ).flatmap(
        lambda ns: st.fixed_dictionaries(
            {
                "n": st.just(ns),
                "powers": st.lists(
                    st.tuples(*[st.integers(0, 2 * n - 1) for n in ns], st.integers(-4, 4)).map(list), min_size=1, max_size=4
                ),
                "via": st.booleans(),
            }
        )
    )
)


@sub("P31", "exactness", CASE, "a term of the highest degree that can be integrated exactly", nontrivial=lambda c: any(t[-1] and t[0] >= 2 * c["n"][0] - 2 for t in c["powers"]), quick=600)
def exactness(case):
    ns = case["n"]
    p, w = rule(case)
    N = int(np.prod(ns))
    ok(p.shape == (N, len(ns)) and w.shape == (N,), f"shapes {p.shape} {w.shape}")
    ok(np.all(w > 0), "weights have to be positive")
    ok(np.all(np.abs(p) < 1), "points have to be inside of the domain")
    close(w.sum(), 2.0 ** len(ns), "sum of weights", rtol=1e-12)
    exact, got = Fraction(0), 0.0
    for t in case["powers"]:
        term = Fraction(t[-1])
        num = np.full(N, float(t[-1]))
        for k, e in enumerate(t[:-1]):
            term *= integral(e)
            num = num * p[:, k] ** e
        exact += term
        got += float(np.sum(num * w))
    close(got, float(exact), "integral of a polynomial", rtol=1e-11, scale=1 + sum(abs(t[-1]) for t in case["powers"]) * 8)
    # the points of a direction are symmetric and the last direction is the fastest one
    grid = p.reshape(tuple(ns) + (len(ns),))
    for k in range(len(ns)):
        line = grid[tuple(slice(None) if j == k else 0 for j in range(len(ns)))][..., k]
        ok(np.all(np.diff(line) > 0), "points are not enumerated in increasing order, the last direction being the fastest one")
        close(line + line[::-1], np.zeros(len(line)), "points have to be symmetric", atol=1e-12)
        other = np.moveaxis(grid[..., k], k, -1)
        close(other, np.broadcast_to(line, other.shape), "the points are not on a grid", atol=0)
    wg = w.reshape(ns)
    for k in range(len(ns)):
        one = gauss_points(ns[k])
        marg = wg.sum(axis=tuple(j for j in range(len(ns)) if j != k))
        close(marg, np.array(one[1]) * 2.0 ** (len(ns) - 1), f"weights along direction {k}", rtol=1e-12)


@sub("P31", "dimensions", st.lists(st.integers(1, 3), min_size=4, max_size=6), "all", quick=10)
def dimensions(ns):
    raises(NotImplementedError, lambda: gauss_points(*ns), f"{len(ns)} dimensions")
