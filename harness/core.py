"""Registry and helpers shared by the property modules.

A property module registers *sub-checks*.  A sub-check is a Hypothesis strategy that
generates a plain-data (JSON-able) ``case``, a ``check(case)`` function that runs the code
under test on the case and compares it with an independent oracle (raising on disagreement),
and a rule that says when a case is non-trivial.
"""

import json
import math
import os
import sys

_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis  # noqa
except ImportError:
    # appended at the end: the packages of the code under test keep precedence
    sys.path.append(_HYP)
    import hypothesis  # noqa

from hypothesis import strategies as st  # noqa

import numpy as np

import sigmaepsilon.math

# registered checks run against /repo; VERIF_DEV_SRC is for measuring the machinery (tools/mutate.py)
_SRC = os.environ.get("VERIF_DEV_SRC", "/repo/")
if not os.path.abspath(sigmaepsilon.math.__file__).startswith(_SRC):
    raise RuntimeError(f"the code under test is not the one in {_SRC}")

REGISTRY = {}


class Sub:
    def __init__(self, prop, name, strategy, check, nontrivial, rule, quick, thorough, explicit, shards):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.check = check
        self.nontrivial = nontrivial
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.explicit = explicit
        self.shards = shards


def sub(prop, name, strategy, rule, nontrivial=None, quick=300, thorough=None, explicit=(), shards=1):
    """Registers a sub-check of a property."""

    def deco(f):
        REGISTRY.setdefault(prop, {})[name] = Sub(
            prop,
            name,
            strategy,
            f,
            nontrivial or (lambda case: True),
            rule,
            quick,
            thorough or quick * 20,
            list(explicit),
            shards,
        )
        return f

    return deco


class Violation(AssertionError):
    pass


def fail(msg):
    raise Violation(msg)


def ok(cond, msg):
    if not cond:
        raise Violation(msg)


def arr(x, dtype=float):
    return np.array(x, dtype=dtype)


def plain(x):
    """A pure, independent NumPy copy of any array-like."""
    return np.array(np.asarray(x), copy=True, subok=False)


def close(actual, expected, what, rtol=1e-9, atol=1e-9, scale=None):
    """
    Compares arrays elementwise with a tolerance relative to the magnitude of
    the expected data (or `scale`), shapes must be equal.
    """
    a = np.array(np.asarray(actual), dtype=float, subok=False)
    e = np.array(np.asarray(expected), dtype=float, subok=False)
    if a.shape != e.shape:
        fail(f"{what}: shape {a.shape} instead of {e.shape}")
    if a.size == 0:
        return
    m = float(np.max(np.abs(e))) if scale is None else float(scale)
    if not np.all(np.isfinite(a)):
        if not np.all(np.isfinite(e)):
            if np.array_equal(a, e, equal_nan=True):
                return
        fail(f"{what}: not finite: {a.tolist()} instead of {e.tolist()}")
    d = np.abs(a - e)
    if np.max(d) > atol + rtol * m:
        fail(f"{what}: {short(a)} instead of {short(e)} (max. diff. {np.max(d):.3e})")


def equal(actual, expected, what):
    if isinstance(actual, np.ndarray) or isinstance(expected, np.ndarray):
        a, e = np.asarray(actual), np.asarray(expected)
        if a.shape != e.shape or not np.array_equal(a, e):
            fail(f"{what}: {short(a)} instead of {short(e)}")
    elif not actual == expected:
        fail(f"{what}: {actual!r} instead of {expected!r}")


def short(a):
    s = np.array2string(np.asarray(a), threshold=60, precision=10)
    return s if len(s) < 600 else s[:600] + "..."


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    except Exception as e:  # noqa
        fail(f"{what}: raised {type(e).__name__}({e}) instead of {exc}")
    fail(f"{what}: no exception was raised")


# ----------------------------------------------------------------------- strategies


def _off_grid(q, r):
    """Every fourth number has a full mantissa, so that it does not survive any rounding."""
    return q if r < 3 else q * 0.9876543210987654


def nums(lo=-5.0, hi=5.0, den=16, exact=False):
    """
    Floats on a dyadic grid, exactly representable, that shrink towards 0, and, unless
    exact numbers are asked for, some others next to them.
    """
    a, b = math.ceil(lo * den), math.floor(hi * den)
    if exact:
        return st.integers(a, b).map(lambda i: i / den)
    if a > 0:
        return st.integers(4 * a + 4, 4 * b + 2).map(lambda i: _off_grid((i // 4) / den, i % 4))
    return st.integers(4 * a, 4 * b + 2).map(lambda i: _off_grid((i // 4) / den, i % 4))


def nznums(lo=0.25, hi=4.0, den=16, exact=False):
    """Nonzero floats of both signs with bounded magnitude."""
    return st.tuples(nums(lo, hi, den, exact), st.sampled_from([1, -1])).map(lambda t: t[0] * t[1])


def flat(n, elements):
    return st.lists(elements, min_size=n, max_size=n)


def reshape(xs, shape):
    return np.array(xs).reshape(shape).tolist()


def array_of(shape, elements=None):
    shape = tuple(shape)
    n = int(np.prod(shape))
    elements = nums() if elements is None else elements
    return flat(n, elements).map(lambda xs: reshape(xs, shape))


def spread(xs, shape):
    """
    A deterministic array of any size made of a few numbers: large data is expensive to
    draw and to shrink. The items are all different for generic numbers.
    """
    a = np.array(xs, dtype=float)
    k = len(a)
    n = int(np.prod(shape))
    i = np.arange(n)
    r = a[i % k] * ((i * 7) % 5 - 2) + a[(i // k) % k] * ((i * 3) % 4 - 1) + ((i * i + 3 * i) % 11) / 8
    return r.reshape(shape)


def givens(dim, angles):
    """A proper rotation matrix made of plane rotations."""
    R = np.eye(dim)
    k = 0
    for i in range(dim):
        for j in range(i + 1, dim):
            if k >= len(angles):
                return R
            c, s = math.cos(angles[k]), math.sin(angles[k])
            G = np.eye(dim)
            G[i, i] = c
            G[j, j] = c
            G[i, j] = -s
            G[j, i] = s
            R = G @ R
            k += 1
    return R


def _mk_frame(kind, dim, xs):
    k = dim * (dim - 1) // 2
    ang = [x * math.pi / 16 for x in xs[:k]]
    R = givens(dim, ang)
    if kind == "eye":
        A = np.eye(dim)
    elif kind == "orthonormal":
        A = R
    elif kind == "reflected":
        A = R.copy()
        A[0] *= -1
    elif kind == "rectangular":
        s = [(0.5 + abs(x % 13) / 4) * (1 if x >= 0 else -1) for x in xs[k : k + dim]]
        A = np.diag(s) @ R
    else:  # skew
        s = [(0.5 + abs(x % 13) / 4) * (1 if x >= 0 else -1) for x in xs[k : k + dim]]
        L = np.eye(dim)
        U = np.eye(dim)
        il = 0
        for i in range(dim):
            for j in range(i):
                L[i, j] = xs[k + dim + il] / 24
                U[j, i] = xs[2 * k + dim + il] / 24
                il += 1
        A = L @ np.diag(s) @ U @ R if len(xs) % 2 else L @ np.diag(s) @ U
        # rounding errors of a tensor of rank r grow with the power r + 1 of the condition number
        u, sv, v = np.linalg.svd(A)
        if sv[0] > 12 * sv[-1]:
            A = u @ np.diag(np.maximum(sv, sv[0] / 12)) @ v
    return A.tolist()


KINDS = ["eye", "orthonormal", "reflected", "rectangular", "skew"]


def axes_of(dim, kinds=("skew", "skew", "rectangular", "orthonormal", "reflected", "eye")):
    """Well conditioned frames of various kinds, as nested lists (rows are base vectors)."""
    k = dim * (dim - 1) // 2
    n = 3 * k + dim
    return st.tuples(
        st.sampled_from(list(kinds)), flat(n, st.integers(-24, 24))
    ).map(lambda t: _mk_frame(t[0], dim, t[1]))


def stack_of_axes(n, dim, kinds=("skew", "rectangular", "orthonormal", "reflected")):
    return st.lists(axes_of(dim, kinds), min_size=n, max_size=n)


def is_orthonormal(axes, tol=1e-9):
    A = np.array(axes, dtype=float)
    return np.allclose(A @ A.T, np.eye(len(A)), atol=tol)


def is_rectangular(axes, tol=1e-9):
    A = np.array(axes, dtype=float)
    G = A @ A.T
    return np.allclose(G - np.diag(np.diag(G)), 0, atol=tol)


# ------------------------------------------------------------- reference: tensor algebra


def to_ambient(comps, axes, rank):
    """
    Ambient components of tensors given by contravariant components: every tensorial
    index is contracted with the base vectors (rows of `axes`); leading axes, if any,
    enumerate items of a collection.
    """
    T = np.array(comps, dtype=float)
    A = np.array(axes, dtype=float)
    if A.ndim == 3:
        # one frame for each item along the first axis
        if T.ndim == rank:
            return np.array([to_ambient(T, a, rank) for a in A])
        return np.array([to_ambient(t, a, rank) for t, a in zip(T, A)])
    nd = T.ndim
    for k in range(rank):
        ax = nd - rank + k
        T = np.moveaxis(np.tensordot(T, A, axes=([ax], [0])), -1, ax)
    return T


def from_ambient(T, axes, rank):
    return to_ambient(T, np.linalg.inv(np.array(axes, dtype=float)), rank)


def rot(axis, angle):
    """Elementary active rotation about the ambient axis 1, 2 or 3."""
    c, s = math.cos(angle), math.sin(angle)
    i, j = {1: (1, 2), 2: (2, 0), 3: (0, 1)}[axis]
    R = np.eye(3)
    R[i, i] = R[j, j] = c
    R[i, j] = -s
    R[j, i] = s
    return R


def euler(kind, angles, order):
    """
    The active rotation matrix of a 'Body' or 'Space' sequence, independently of SymPy.
    """
    idx = {"X": 1, "Y": 2, "Z": 3, "1": 1, "2": 2, "3": 3}
    Rs = [rot(idx[o], a) for o, a in zip(str(order).upper(), angles)]
    if kind == "Body":
        return Rs[0] @ Rs[1] @ Rs[2]
    return Rs[2] @ Rs[1] @ Rs[0]


def in_frame(comps, axes, target, rank):
    return from_ambient(to_ambient(comps, axes, rank), target, rank)


def dump(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))
