"""P07: cross products and the permutation tensor."""

import itertools

import numpy as np

from harness.core import (
    arr,
    close,
    flat,
    from_ambient,
    is_orthonormal,
    nums,
    ok,
    plain,
    raises,
    spread,
    st,
    sub,
    to_ambient,
)
from harness.lab import FRAMES, collection_operands, collection_pairs, frame_specs, near, neighbour
from sigmaepsilon.math.linalg import ReferenceFrame, Tensor, Tensor2, Tensor2x3, Vector, cross, dot, permutation_tensor


def xprod(u, v):
    return np.array([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]])


CASE = st.fixed_dictionaries(
    {
        "f": frame_specs(3),
        "g": frame_specs(3),
        "h": st.none() | frame_specs(3) | st.sampled_from(["f", "g"]),
        "same": st.integers(0, 3).map(lambda i: i == 0),
        "a": flat(3, nums()),
        "b": flat(3, nums()),
        "T": flat(9, nums()),
        "cls": st.sampled_from(["Tensor2", "Tensor2x3"]),
    }
)


@sub(
    "P07",
    "products",
    CASE,
    "at least one frame is not orthonormal or is left-handed, and the vectors are not parallel",
    nontrivial=lambda c: np.abs(np.cross(c["a"], c["b"])).max() > 0
    and (not is_orthonormal(c["f"][1]) or np.linalg.det(c["f"][1]) < 0),
    quick=800,
    shards=2,
)
def products(case):
    A, B = arr(case["f"][1]), arr(case["f" if case["same"] else "g"][1])
    F = FRAMES[case["f"][0]](A.copy())
    G = F if case["same"] else FRAMES[case["g"][0]](B.copy())
    if case["h"] in ("f", "g"):  # the frame of one of the operands
        H = {"f": F, "g": G}[case["h"]]
    else:
        H = FRAMES[case["h"][0]](arr(case["h"][1])) if case["h"] else None
    a, b = Vector(arr(case["a"]), frame=F), Vector(arr(case["b"]), frame=G)
    x, y = A.T @ arr(case["a"]), B.T @ arr(case["b"])
    z = xprod(x, y)
    m = 1 + np.abs(x).max() * np.abs(y).max()
    for f in (cross, np.cross):
        kw = {"frame": H} if H is not None and f is cross else {}
        c = f(a, b, **kw)
        ok(type(c) is Vector, "class of the cross product")
        close(c.show(), z, "cross product", scale=m, rtol=1e-8)
        if kw:
            ok(c.frame is H, "frame of the cross product")
            ref = from_ambient(z, plain(H.axes), 1)
            close(c.array, ref, "components of the cross product", scale=m + np.abs(ref).max(), rtol=1e-8)
        close(f(b, a, **kw).show(), -z, "anticommutativity", scale=m, rtol=1e-8)
    c = cross(a, b)
    close(dot(c, a), 0.0, "the product is perpendicular to the first vector", scale=m * (1 + np.abs(x).max()), rtol=1e-8)
    close(dot(c, b), 0.0, "the product is perpendicular to the second vector", scale=m * (1 + np.abs(y).max()), rtol=1e-8)
    close(a.array, case["a"], "first operand", rtol=0, atol=0)
    close(b.array, case["b"], "second operand", rtol=0, atol=0)
    close(F.axes, A, "frame of the first operand", rtol=0, atol=0)
    # a tensor and a vector: columnwise
    kw = {"frame": H} if H is not None else {}
    klass = {"Tensor2": Tensor2, "Tensor2x3": Tensor2x3}[case["cls"]]
    T = klass(arr(case["T"]).reshape(3, 3), frame=F)
    t = to_ambient(arr(case["T"]).reshape(3, 3), A, 2)
    mt = 1 + np.abs(t).max() * np.abs(y).max()
    r, q = cross(T, b, **kw), cross(b, T, **kw)
    ok(r.rank == 2 and q.rank == 2, "rank of the product of a tensor and a vector")
    exp_r = np.cross(t, y, axis=0)
    exp_q = np.cross(y, t, axis=0)
    close(r.show(), exp_r, "cross product of a tensor and a vector", scale=mt, rtol=1e-8)
    close(q.show(), exp_q, "cross product of a vector and a tensor", scale=mt, rtol=1e-8)
    if kw:
        for t2, e, what in ((r, exp_r, "tensor and a vector"), (q, exp_q, "vector and a tensor")):
            ok(t2.frame is H, f"frame of the product of a {what}")
            ref = from_ambient(e, plain(H.axes), 2)
            close(t2.array, ref, f"components of the product of a {what}", scale=mt + np.abs(ref).max(), rtol=1e-8)
    close(T.array, arr(case["T"]).reshape(3, 3), "the tensor", rtol=0, atol=0)
    # arrays: as NumPy does
    close(cross(arr(case["a"]), arr(case["b"])), xprod(case["a"], case["b"]), "cross product of arrays")
    close(cross(list(case["a"]), list(case["b"])), xprod(case["a"], case["b"]), "cross product of lists")
    raises(TypeError, lambda: cross(a, arr(case["b"])), "cross product of a vector and an array")


@sub(
    "P07",
    "units",
    st.tuples(CASE, flat(5, st.integers(-7, 7) | st.sampled_from([-12, -10, -9, 9, 12])), st.sampled_from([0, 0, 4, 5, 6, 7])).map(
            lambda t: {**t[0], "k": t[1], "e": t[2]}
        ),
    "the vectors are not parallel",
    nontrivial=lambda c: np.abs(np.cross(c["a"], c["b"])).max() > 0,
    quick=300,
)
def other_units(case):
    """Operands of very different magnitudes in frames of very different magnitudes."""
    k = [10.0**e for e in case["k"]]
    A, B = arr(case["f"][1]) * k[0], arr(case["g"][1]) * k[1]
    if case["e"]:
        B = neighbour(arr(case["f"][1]), case["e"]) * k[0]
    F, G = ReferenceFrame(A.copy()), ReferenceFrame(B.copy())
    if case["same"]:
        G, B = F, A
    a, b = Vector(arr(case["a"]) * k[2], frame=F), Vector(arr(case["b"]) * k[3], frame=G)
    x, y = A.T @ (arr(case["a"]) * k[2]), B.T @ (arr(case["b"]) * k[3])
    m = np.abs(x).max() * np.abs(y).max()
    near(cross(a, b).show(), xprod(x, y), "cross product", m)
    near(cross(b, a).show(), -xprod(x, y), "cross product, swapped", m)
    H = ReferenceFrame(B[::-1] * k[4])
    near(cross(a, b, frame=H).show(), xprod(x, y), "cross product in another frame", m)
    X = arr(case["T"]).reshape(3, 3) * k[2]
    T = Tensor2(X, frame=F)
    t = to_ambient(X, A, 2)
    m = np.abs(t).max() * np.abs(y).max()
    near(cross(T, b).show(), np.cross(t, y, axis=0), "cross product of a tensor and a vector", m)
    near(cross(b, T).show(), np.cross(y, t, axis=0), "cross product of a vector and a tensor", m)


@sub(
    "P07",
    "collections",
    collection_pairs(dims=(3,), cross=True),
    "more than one item",
    nontrivial=lambda c: c["n"] > 1,
    quick=300,
)
def collections(case):
    (a, X, F, A, x, xs), (b, Y, G, B, y, ys) = collection_operands(case)
    ka, kb = case["what"]

    def item(p, q):
        if p.ndim == q.ndim:
            return xprod(p, q)
        if p.ndim == 2:
            return np.array([xprod(c, q) for c in p.T]).T
        return np.array([xprod(p, c) for c in q.T]).T

    exp = np.array([item(p, q) for p, q in zip(xs, ys)])
    m = 1 + max(np.abs(p).max() for p in xs) * max(np.abs(q).max() for q in ys)
    what = f"{ka} x {kb}, {case['n']} items"
    H = FRAMES[case["h"][0]](arr(case["h"][1])) if case["h"] else None
    for f in (cross, np.cross):
        kw = {"frame": H} if H is not None and f is cross else {}
        r = f(a, b, **kw)
        close(r.show(), exp, what, scale=m, rtol=1e-8)
        ok(r.is_bulk() is True, f"{what}: the product is not a collection")
        ok(r.rank == exp.ndim - 1, f"{what}: rank {r.rank}")
        if kw:
            ok(r.frame is H, f"{what}: frame of the product")
            ref = from_ambient(exp, case["h"][1], r.rank)
            close(r.array, ref, f"{what}: components in a frame", scale=m + np.abs(ref).max(), rtol=1e-8)
    close(a.array, X, "first operand", rtol=0, atol=0)
    close(b.array, Y, "second operand", rtol=0, atol=0)
    close(F.axes, A, "frame of the first operand", rtol=0, atol=0)
    close(G.axes, B, "frame of the second operand", rtol=0, atol=0)


def parity(p):
    return (-1) ** sum(p[j] > p[i] for i in range(len(p)) for j in range(i))


@sub(
    "P07",
    "permutation",
    st.integers(1, 6).flatmap(
        lambda d: st.fixed_dictionaries(
            {"dim": st.just(d), "m": flat(min(d * d, 16), nums(-2, 2))}
        )
    ),
    "dimension above two",
    nontrivial=lambda c: c["dim"] > 2,
    quick=60,
    explicit=[{"dim": d, "m": [1.0, 0.5, -0.25, 2.0]} for d in range(1, 7)],
)
def permutation(case):
    d = case["dim"]
    E = permutation_tensor(d)
    ok(E.shape == (d,) * d, "shape of the permutation tensor")
    for idx in itertools.product(range(d), repeat=d):
        e = parity(idx) if len(set(idx)) == d else 0
        ok(E[idx] == e, f"permutation symbol {idx}: {E[idx]} instead of {e}")
    if d == 3:
        u, v = arr(case["m"][:3]), arr(case["m"][3:6])
        if len(v) == 3:
            close(np.einsum("ijk,j,k", E, u, v), xprod(u, v), "cross product by contraction")
