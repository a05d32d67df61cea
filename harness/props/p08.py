"""P08: collections of tensors behave as their items one by one."""

import numpy as np

from harness.core import (
    arr,
    axes_of,
    close,
    euler,
    flat,
    from_ambient,
    nums,
    nznums,
    ok,
    plain,
    spread,
    st,
    stack_of_axes,
    sub,
    to_ambient,
)
from harness.lab import ANG, CLASSES, FRAMES, ORDERS, frame_specs
from sigmaepsilon.math.linalg.exceptions import LinalgError, TensorShapeMismatchError
from sigmaepsilon.math.linalg import (
    ReferenceFrame,
    Tensor2,
    Tensor2x3,
    Tensor4,
    Tensor4x3,
    Vector,
    show_vector,
    show_frame,
)

KLASS = {"Vector": Vector, "Tensor2": Tensor2, "Tensor2x3": Tensor2x3, "Tensor4": Tensor4, "Tensor4x3": Tensor4x3}
RANK = {"Vector": 1, "Tensor2": 2, "Tensor2x3": 2, "Tensor4": 4, "Tensor4x3": 4}


def mk(t):
    cls, dim, lead = t
    n = lead[0]
    return st.fixed_dictionaries(
        {
            "cls": st.just(cls),
            "dim": st.just(dim),
            "lead": st.just(lead),
            "axes": st.one_of(axes_of(dim), stack_of_axes(n, dim)),
            "target": st.one_of(axes_of(dim), stack_of_axes(n, dim)),
            "a": flat(6, nums()),
            "b": flat(6, nums()),
            "s": nznums(0.25, 3),
            "rot": st.tuples(
                st.sampled_from(["Body", "Space"]), st.lists(ANG, min_size=3, max_size=3), st.sampled_from(ORDERS)
            ).map(list),
        }
    )


SHAPES = st.one_of(
    st.tuples(st.just("Vector"), st.sampled_from([1, 2, 3, 4]), st.integers(1, 5).map(lambda n: [n])),
    st.tuples(st.just("Tensor2"), st.sampled_from([1, 2, 3, 4]), st.integers(1, 5).map(lambda n: [n])),
    st.tuples(st.just("Tensor2x3"), st.just(3), st.lists(st.integers(1, 4), min_size=1, max_size=3)),
    st.tuples(st.just("Tensor4"), st.sampled_from([2, 3]), st.integers(1, 4).map(lambda n: [n])),
    st.tuples(st.just("Tensor4x3"), st.just(3), st.lists(st.integers(1, 3), min_size=1, max_size=3)),
)


def make(cls, X, frame):
    if cls in ("Tensor2", "Tensor4"):
        return KLASS[cls](X, frame=frame, bulk=True)
    return KLASS[cls](X, frame=frame)


@sub(
    "P08",
    "items",
    SHAPES.flatmap(mk),
    "more than one item",
    nontrivial=lambda c: int(np.prod(c["lead"])) > 1,
    quick=500,
    shards=3,
)
def items(case):
    cls, dim, lead = case["cls"], case["dim"], tuple(case["lead"])
    rank = RANK[cls]
    A, B = arr(case["axes"]), arr(case["target"])
    F, G = ReferenceFrame(A.copy()), ReferenceFrame(B.copy())
    X, Y = spread(case["a"], lead + (dim,) * rank), spread(case["b"], lead + (dim,) * rank)
    c, d = make(cls, X, F), make(cls, Y, G)
    ok(c.is_bulk() is True, "is_bulk of a collection")
    ok(c.rank == rank, f"rank {c.rank} of a collection")
    ok(len(c) == lead[0], "length of a collection")

    def single(X, A, idx):
        a = A[idx[0]] if A.ndim == 3 else A
        return KLASS[cls](X[idx].copy(), frame=ReferenceFrame(a.copy()))

    amb = c.show()
    inG = c.show(G)
    both = c + d
    diff = c - d
    dual = c.dual()
    sc = c * case["s"]
    neg = -c
    T = c.T
    cp = c.copy(deep=True)
    results = {"sum": both, "difference": diff, "dual": dual, "multiple": sc, "negative": neg, "transpose": T, "copy": cp}
    for k, r in results.items():
        ok(r.is_bulk() is True, f"{k} of a collection is a collection")
        ok(plain(r.array).shape == X.shape, f"shape of the {k}")
    shown = {k: plain(r.show()) for k, r in results.items()}
    m = 10 + 10 * max(np.abs(plain(amb)).max(), np.abs(plain(inG)).max(), np.abs(plain(d.show())).max())
    ok(not single(X, A, (0,) * len(lead)).is_bulk(), "is_bulk of a single item")
    for idx in np.ndindex(*lead):
        b = B[idx[0]] if B.ndim == 3 else B
        g = ReferenceFrame(b.copy())
        u, v = single(X, A, idx), single(Y, B, idx)
        x, y = (
            to_ambient(X[idx], A[idx[0]] if A.ndim == 3 else A, rank),
            to_ambient(Y[idx], b, rank),
        )
        w = f"item {idx} of a collection of {cls}"
        close(amb[idx], x, f"{w}: ambient components", scale=m)
        close(amb[idx], u.show(), f"{w}: as a single tensor", scale=m)
        close(inG[idx], from_ambient(x, b, rank), f"{w}: in another frame", scale=m)
        close(inG[idx], u.show(g), f"{w}: in another frame, as a single tensor", scale=m)
        close(shown["sum"][idx], x + y, f"{w}: sum", scale=m)
        close(shown["difference"][idx], x - y, f"{w}: difference", scale=m)
        close(shown["dual"][idx], x, f"{w}: dual", scale=m)
        close(dual.array[idx], u.dual().array, f"{w}: components of the dual", scale=m * 10)
        close(shown["multiple"][idx], x * case["s"], f"{w}: multiple", scale=m)
        close(shown["negative"][idx], -x, f"{w}: negative", scale=m)
        close(shown["transpose"][idx], np.transpose(x), f"{w}: transpose", scale=m)
        close(shown["copy"][idx], x, f"{w}: copy", scale=m)
    # setting the frame
    c.frame = G
    for idx in np.ndindex(*lead):
        b = B[idx[0]] if B.ndim == 3 else B
        x = to_ambient(X[idx], A[idx[0]] if A.ndim == 3 else A, rank)
        close(c.array[idx], from_ambient(x, b, rank), f"item {idx}: components after the frame was set", scale=m)
    if dim == 3:
        R = euler(*case["rot"])
        e = make(cls, X, F)
        n = e.orient_new(*case["rot"])
        e.orient(*case["rot"])
        exp = X
        for k in range(X.ndim - rank, X.ndim):
            exp = np.moveaxis(np.tensordot(exp, R, axes=([k], [1])), -1, k)
        close(e.array, exp, "components of a collection after orient", scale=m)
        close(n.array, exp, "components of a collection after orient_new", scale=m)


@sub(
    "P08",
    "kernels",
    st.tuples(st.integers(1, 6), st.integers(1, 4)).flatmap(
        lambda t: st.fixed_dictionaries(
            {"n": st.just(t[0]), "d": st.just(t[1]), "x": flat(6, nums()), "q": flat(6, nums())}
        )
    ),
    "more than one item",
    nontrivial=lambda c: c["n"] > 1,
    quick=200,
)
def kernels(case):
    n, d = case["n"], case["d"]
    Q, v = spread(case["q"], (n, d, d)), spread(case["x"], (n, d))
    E = spread(case["x"], (n, d, d))
    close(show_vector(Q[0], v[0]), Q[0] @ v[0], "one vector, one matrix")
    close(show_vector(Q[0], v), np.array([Q[0] @ x for x in v]), "vectors, one matrix")
    close(show_vector(Q, v), np.array([q @ x for q, x in zip(Q, v)]), "vectors, matrices")
    close(show_frame(Q[0], E[0]), np.array([Q[0] @ e for e in E[0]]), "one frame, one matrix")
    close(show_frame(Q[0], E), np.array([[Q[0] @ e for e in f] for f in E]), "frames, one matrix")
    close(show_frame(Q, E), np.array([[q @ e for e in f] for q, f in zip(Q, E)]), "frames, matrices")


SIZES = st.one_of(st.integers(1, 20), st.integers(21, 140), st.sampled_from([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513]))


@sub(
    "P08",
    "large",
    st.tuples(st.sampled_from(["Vector", "Vector", "Tensor2", "Tensor2x3", "Tensor4", "Tensor4x3"]), SIZES, st.integers(1, 9)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "cls": st.just(t[0]),
                "n": st.just(t[1]),
                "inner": st.just(t[2]),
                "frames": st.lists(axes_of(3, ("skew", "rectangular", "orthonormal", "reflected")), min_size=4, max_size=4),
                "fstack": st.booleans(),
                "gstack": st.booleans(),
                "nest": st.booleans(),
                "a": flat(6, nums()),
                "b": flat(6, nums()),
                "s": nznums(0.25, 3),
            }
        )
    ),
    "more than 20 items",
    nontrivial=lambda c: c["n"] > 20,
    quick=240,
    shards=2,
)
def large(case):
    """Many items: all of them are transformed, each with its own frame."""
    cls, n = case["cls"], case["n"]
    rank = RANK[cls]
    if rank == 4:
        n = min(n, 140)
    lead = (n, case["inner"]) if case["nest"] and cls in ("Tensor2x3", "Tensor4x3") else (n,)
    K = arr(case["frames"])
    i = np.arange(n)
    A = K[(i * i) % 3] if case["fstack"] else K[0]
    B = K[1 + (i * 5 + i // 7) % 3] if case["gstack"] else K[3]
    X, Y = spread(case["a"], lead + (3,) * rank), spread(case["b"], lead + (3,) * rank)

    def amb(Z, M):
        """Contraction of every tensorial index, item by item, with einsum."""
        M = M if M.ndim == 3 else np.broadcast_to(M, (n, 3, 3))
        M = M.reshape((n,) + (1,) * (len(lead) - 1) + (3, 3))
        ids, out = "abcd"[:rank], "pqrs"[:rank]
        return np.einsum("..." + ids + "," + ",".join("..." + x + y for x, y in zip(ids, out)) + "->..." + out, Z, *[M] * rank)

    F, G = ReferenceFrame(A.copy()), ReferenceFrame(B.copy())
    c, d = make(cls, X.copy(), F), make(cls, Y.copy(), G)
    x, y = amb(X, A), amb(Y, B)
    m = 10 + 10 * max(np.abs(x).max(), np.abs(y).max())
    close(c.show(), x, "ambient components", scale=m)
    inv = np.linalg.inv(B)
    e = amb(x, inv)
    m2 = max(m, 10 * np.abs(e).max())
    close(c.show(G), e, "components in another frame", scale=m2)
    close((c + d).show(), x + y, "sum", scale=m)
    close((c - d).show(), x - y, "difference", scale=m)
    close((c * case["s"]).show(), x * case["s"], "multiple", scale=m)
    close(c.dual().show(), x, "dual", scale=m)
    close(c.array, X, "components after all that", rtol=0, atol=0)
    c.frame = G
    close(c.array, e, "components after the frame was set", scale=m2)
    close(c.show(), x, "ambient components after the frame was set", scale=m2)
    F2 = ReferenceFrame(A.copy())
    t = make(cls, X.copy(), F2)
    F2 *= 2.0
    close(t.show(), x, "ambient components after the frame has changed", scale=m)
    close(t.array, X / 2.0**rank, "components after the frame has changed", scale=m)
    F2.axes = B.copy() if B.ndim == A.ndim else A * 0.5
    close(t.show(), x, "ambient components after the axes were set", scale=m2)
    if rank == 1:
        u, v = make(cls, X.copy(), F), make(cls, Y.copy(), F)
        z = amb(Y, A)
        # the cross and scalar products by items are in P06 and P07
        close((u + v).show(), x + z, "sum in one frame", scale=m)


@sub(
    "P08",
    "detection",
    st.fixed_dictionaries(
        {
            "cls": st.sampled_from(["Vector", "Tensor2", "Tensor2x3", "Tensor4", "Tensor4x3"]),
            "shape": st.one_of(
                st.lists(st.integers(1, 4), min_size=1, max_size=6),
                st.tuples(st.lists(st.integers(1, 3), max_size=2), st.sampled_from([1, 2, 3, 3]), st.integers(1, 4)).map(
                    lambda t: t[0] + [t[1]] * t[2]
                ),
            ),
            "bulk": st.sampled_from([None, True, False]),
        }
    ),
    "the shape fits",
    nontrivial=lambda c: len(set(c["shape"][-RANK[c["cls"]] :])) == 1,
    quick=400,
)
def detection(case):
    """Single or collection, from the shape of the components, and shapes that are neither."""
    cls, shape, bulk = case["cls"], tuple(case["shape"]), case["bulk"]
    r = RANK[cls]
    X = spread([0.5, -1, 2, 0.25], shape)
    lead = len(shape) - r
    square = lead >= 0 and len(set(shape[-r:])) == 1
    fixed = cls in ("Tensor2x3", "Tensor4x3")
    if cls == "Vector":
        if bulk is not None or lead > 1:
            return
        good = True
    elif fixed:
        good = square and shape[-1] == 3 and bulk in (None, lead > 0)
    else:
        good = square and lead == int(bool(bulk))
    kw = {} if bulk is None else {"bulk": bulk}
    try:
        T = KLASS[cls](X, **kw)
    except (ValueError, LinalgError, TensorShapeMismatchError):
        ok(not good, f"components of shape {shape} are refused by {cls}({kw})")
        return
    ok(good, f"components of shape {shape} are accepted by {cls}({kw})")
    ok(bool(T.is_bulk()) == (lead > 0), f"{cls}: is_bulk of components of shape {shape}")
    ok(T.rank == r, f"rank {T.rank} of a {cls}")
    ok(plain(T.frame.axes).shape[-1] == shape[-1], "dimension of the default frame")
    close(T.show(), X, "components in the default frame", rtol=0, atol=0)
