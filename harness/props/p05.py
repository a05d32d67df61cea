"""P05: arithmetic of tensors does not depend on the frames of the operands."""

import numpy as np

from harness.core import (
    arr,
    axes_of,
    close,
    flat,
    from_ambient,
    nums,
    nznums,
    ok,
    plain,
    raises,
    spread,
    st,
    sub,
    to_ambient,
)
from harness.lab import CLASSES, FRAMES, arith_ops, build, frame_specs, histories, near, run_history, unit_operands, units
from sigmaepsilon.math.linalg import ReferenceFrame, Tensor, Tensor2, Vector
from sigmaepsilon.math.linalg.exceptions import TensorShapeMismatchError

AR = {"timul", "tidiv", "tiadd", "tisub", "binary", "scale", "neg", "dual", "T"}


def attach(dim):
    return [st.tuples(st.just("attach"), st.integers(0, 7), st.integers(0, 5))]


@sub(
    "P05",
    "history",
    histories([arith_ops, arith_ops, attach], max_ops=10),
    "at least two arithmetic operations",
    nontrivial=lambda c: sum(o[0] in AR for o in c["ops"]) >= 2,
    quick=700,
    shards=3,
)
def history(case):
    run_history(case)


def two(dim):
    names = ["Vector", "Tensor1", "Tensor2", "GTensor2", "Tensor3"]
    if dim == 3:
        names += ["Tensor2x3", "Tensor4x3"]
    if dim == 2:
        names += ["Tensor4", "GTensor4", "Tensor5", "Tensor6"]
    return st.fixed_dictionaries(
        {
            "dim": st.just(dim),
            "f": frame_specs(dim),
            "g": frame_specs(dim),
            "h": frame_specs(dim),
            "cls": st.sampled_from(names),
            "bulk": st.sampled_from([0, 0, 0, 1, 3]),
            "a": flat(5, nums()),
            "b": flat(5, nums()),
            "s": nznums(0.25, 4),
        }
    )


@sub(
    "P05",
    "laws",
    st.sampled_from([1, 2, 3, 3, 4]).flatmap(two),
    "the operands are in different frames, at least one is not orthonormal",
    nontrivial=lambda c: c["f"][1] != c["g"][1]
    and not (np.allclose(arr(c["f"][1]) @ arr(c["f"][1]).T, np.eye(c["dim"]))
             and np.allclose(arr(c["g"][1]) @ arr(c["g"][1]).T, np.eye(c["dim"]))),
    quick=600,
    shards=2,
)
def laws(case):
    cls, dim = case["cls"], case["dim"]
    rank = CLASSES[cls][1]
    n = case["bulk"] if cls in ("Vector", "Tensor2", "Tensor2x3", "Tensor4", "Tensor4x3") else 0
    shape = (n,) * (n > 0) + (dim,) * rank
    F, G, H = (FRAMES[case[k][0]](arr(case[k][1])) for k in "fgh")
    AF, AG, AH = (arr(case[k][1]) for k in "fgh")
    X, Y = spread(case["a"], shape), spread(case["b"], shape)
    a, b = build(cls, X, F, n > 0), build(cls, Y, G, n > 0)
    x, y = to_ambient(X, AF, rank), to_ambient(Y, AG, rank)
    s = case["s"]
    m = 1 + max(np.abs(x).max(), np.abs(y).max()) * max(1, abs(s), 1 / abs(s))

    def check(t, amb, what):
        ok(type(t) is type(a), f"{what}: class {type(t).__name__}")
        ok(bool(t.is_bulk()) == (n > 0), f"{what}: bulk flag")
        ok(t.rank == rank, f"{what}: rank {t.rank}")
        close(t.show(), amb, what, scale=m, rtol=1e-8)
        ref = from_ambient(amb, AH, rank)
        close(t.show(H), ref, f"{what}, in another frame", scale=m + np.abs(ref).max(), rtol=1e-8)

    check(a + b, x + y, "a + b")
    check(b + a, x + y, "b + a")
    check(a - b, x - y, "a - b")
    check(b - a, y - x, "b - a")
    check(a * s, x * s, "a * s")
    check(a / s, x / s, "a / s")
    check(-a, -x, "-a")
    check(a.dual(), x, "dual of a")
    check(a.dual().dual(), x, "dual of the dual of a")
    check(a.dual() + b, x + y, "dual of a + b")
    lead = x.ndim - rank
    perm = list(range(lead)) + list(range(lead, x.ndim))[::-1]
    check(a.T, np.transpose(x, perm), "transpose")
    check(a.transpose().transpose(), x, "transpose of the transpose")
    ok(bool(np.allclose(a, a.dual(), rtol=1e-6, atol=1e-6 * m)) is True, "allclose with the dual")
    # operands have not changed
    close(a.array, X, "first operand", rtol=0, atol=0)
    close(b.array, Y, "second operand", rtol=0, atol=0)
    close(F.axes, AF, "frame of the first operand", rtol=0, atol=0)
    close(G.axes, AG, "frame of the second operand", rtol=0, atol=0)
    # in place, in the frame of the first operand
    a0 = a
    a += b
    ok(a is a0, "+= returns another object")
    check(a, x + y, "a += b")
    ok(a.frame is F, "frame after +=")
    a -= b
    a -= b
    check(a, x - y, "a -= b")
    a *= s
    check(a, (x - y) * s, "a *= s")
    a /= s
    check(a, x - y, "a /= s")
    close(b.array, Y, "second operand after in-place operations", rtol=0, atol=0)
    # numbers are added to the components
    c = build(cls, X, F, n > 0)
    c += s
    close(c.array, X + s, "components after adding a number", scale=m)
    c -= s
    c -= s
    close(c.array, X - s, "components after subtracting a number", scale=m)
    d = build(cls, X, F, n > 0)
    d.transpose(inplace=True)
    check(d, np.transpose(x, perm), "transposed in place")
    # operands that do not match
    z = build(cls, spread(case["a"], (n + 2,) + (dim,) * rank), F, True) if n else None
    if z is not None:
        raises(TensorShapeMismatchError, lambda: b + z, "sum of collections of different sizes")
        raises(TensorShapeMismatchError, lambda: b - z, "difference of collections of different sizes")
    raises(TypeError, lambda: b + 1.0, "sum of a tensor and a number")
    raises(TypeError, lambda: b * b, "product of tensors")
    raises(TypeError, lambda: b / b, "quotient of tensors")
    B0 = plain(b.array)
    for bad, what in (([1.0] * dim, "a list"), (np.ones(shape), "an array"), ("1", "a text"), (None, "nothing")):
        raises(TypeError, lambda: b + bad, f"sum with {what}")
        raises(TypeError, lambda: b - bad, f"difference with {what}")
        raises(TypeError, lambda: b * bad, f"product with {what}")
        raises(TypeError, lambda: b / bad, f"quotient with {what}")
        for op in ("__iadd__", "__isub__", "__imul__", "__itruediv__"):
            raises(TypeError, lambda: getattr(b, op)(bad), f"{op} with {what}")
    # one index more or less
    other = Tensor(spread(case["a"], (dim,) * (rank + 1)), frame=ReferenceFrame(AG.copy()))
    for op in ("__iadd__", "__isub__"):
        raises(TensorShapeMismatchError, lambda: getattr(b, op)(other), f"{op} with a tensor of another order")
        if n == dim:
            # of the same shape, but one tensor instead of a collection
            raises(TensorShapeMismatchError, lambda: getattr(b, op)(other), f"{op} with a tensor in place of a collection")
        if z is not None:
            raises(TensorShapeMismatchError, lambda: getattr(b, op)(z), f"{op} with a collection of another size")
    close(b.array, B0, "components after refused operations", rtol=0, atol=0)
    # comparison is that of the objects
    tiny, big = 1e-5 * m, 0.125 * m
    e = np.zeros(shape)
    e.flat[int(abs(case["s"]) * 8) % e.size] = 1.0
    p = build(cls, from_ambient(y, AH, rank), FRAMES["R"](AH.copy()), n > 0)
    q = build(cls, from_ambient(y + big * e, AH, rank), FRAMES["R"](AH.copy()), n > 0)
    r = np.abs(p.show() - y).max()
    if r < tiny / 10:
        ok(bool(np.allclose(b, p, rtol=0, atol=tiny)) is True, "the same tensor in another frame is not close")
        ok(bool(np.allclose(b, q, rtol=0, atol=tiny)) is False, "another tensor is close")
        ok(bool(np.allclose(q, b, rtol=0, atol=tiny)) is False, "another tensor is close")
        if cls != "Vector" and n == 0:
            # of another class
            g = Tensor(from_ambient(y, AH, rank), frame=FRAMES["R"](AH.copy()))
            ok(bool(np.allclose(b, g, rtol=0, atol=tiny)) is True, "the same tensor of a more general class is not close")
            ok(bool(np.allclose(g, q, rtol=0, atol=tiny)) is False, "another tensor of a more general class is close")
        got = np.asarray(np.isclose(b, q, rtol=0, atol=tiny))
        ok(got.shape == shape and np.array_equal(got, e == 0), "closeness of the components")
    w = Vector(spread(case["a"], (dim,)), frame=F)
    if cls != "Vector":
        raises(TypeError, lambda: b + w, "sum of a tensor and a vector")
        raises(TypeError, lambda: b - w, "difference of a tensor and a vector")


@sub(
    "P05",
    "units",
    units(),
    "the frames are of different magnitudes or next to each other",
    nontrivial=lambda c: c["e"] or c["fk"] != c["gk"],
    quick=300,
)
def other_units(case):
    """Operands of very different magnitudes in frames of very different magnitudes."""
    cls, bulk, rank, A, B, X, Y = unit_operands(case)
    F, G = ReferenceFrame(A.copy()), ReferenceFrame(B.copy())
    x = to_ambient(X, A, rank)
    # components in G so that the operands are comparable, up to a factor of 10 ** yk
    y = spread(case["b"], x.shape) * np.abs(x).max() * 10.0 ** (case["yk"] / 3)
    a, b = build(cls, X, F, bulk), build(cls, from_ambient(y, B, rank), G, bulk)
    m = np.abs(x).max() + np.abs(y).max()
    s = case["s"] * 10.0 ** case["hk"]
    near((a + b).show(), x + y, "a + b", m)
    near((a - b).show(), x - y, "a - b", m)
    near((b - a).show(), y - x, "b - a", m)
    near((a * s).show(), x * s, "a * s", x * s)
    near((a / s).show(), x / s, "a / s", x / s)
    near((-a).show(), -x, "-a")
    # closeness is that of the objects, also in one and the same frame
    d = 0.125 * np.abs(x).max()
    if d > 0:
        e = np.zeros(x.shape)
        e.flat[int(abs(case["s"]) * 8) % e.size] = d
        for H, AH in ((F, A), (G, B)):
            c, p = build(cls, from_ambient(x + e, AH, rank), H, bulk), build(cls, from_ambient(x, AH, rank), H, bulk)
            if max(np.abs(c.show() - x - e).max(), np.abs(p.show() - x).max(), np.abs(a.show() - x).max()) < d / 100:
                for q in (a, p):
                    ok(bool(np.allclose(q, c, rtol=0, atol=d / 2)) is False, "another tensor is close")
                    ok(bool(np.allclose(c, q, rtol=0, atol=2 * d)) is True, "a tensor within the tolerance is not close")
                    ok(bool(np.allclose(q, p, rtol=0, atol=d / 20)) is True, "the same tensor is not close")
                    got = np.asarray(np.isclose(q, c, rtol=0, atol=d / 2))
                    ok(got.shape == e.shape and np.array_equal(got, e == 0), "closeness of the components")
    near(a.dual().show(), x, "dual")
    near(a.dual().array, from_ambient(x, np.linalg.inv(A).T, rank), "components of the dual")
    near(a.T.show(), np.transpose(x, list(range(x.ndim - rank)) + list(range(x.ndim - rank, x.ndim))[::-1]), "transpose")
    a += b
    near(a.show(), x + y, "a += b", m)
    a -= b
    near(a.show(), x, "a -= b", m)
    a *= s
    near(a.show(), x * s, "a *= s", m * s)


@sub(
    "P05",
    "chop",
    st.fixed_dictionaries(
        {
            "cls": st.sampled_from(["Vector", "Tensor2", "Tensor3", "Tensor4"]),
            "n": st.sampled_from([0, 0, 2, 5]),
            "axes": st.sampled_from([2, 3]).flatmap(axes_of),
            "comps": flat(12, st.sampled_from([0.0, 1e-3, -1e-3, 0.25, -0.25, 2.0, -3.0, 5e-13, -5e-13, 2e-12, -2e-12, 1e-9])),
            "tol": st.sampled_from([None, 1e-12, 0.01, 0.3, 1e-10, 10.0]),
        }
    ),
    "some of the components are below the limit, and others are not",
    nontrivial=lambda c: 0 < sum(abs(x) < (c["tol"] or 1e-12) for x in c["comps"]) < len(c["comps"]),
    quick=150,
)
def chopped(case):
    """Exactly the components below the limit are set to zero, and only those of the tensor itself."""
    cls, n = case["cls"], case["n"]
    A = np.array(case["axes"], dtype=float)
    dim = len(A)
    rank = CLASSES[cls][1]
    if cls == "Tensor3":
        n = 0
    shape = ((n,) if n else ()) + (dim,) * rank
    F = ReferenceFrame(A.copy())
    size = int(np.prod(shape))
    X = np.array([case["comps"][(3 * i + i // 12) % 12] for i in range(size)]).reshape(shape)
    a, twin = build(cls, X, F, n > 0), build(cls, X, F, n > 0)
    r = a.chop() if case["tol"] is None else a.chop(case["tol"])
    ok(r is a, "chop returned another object")
    tol = 1e-12 if case["tol"] is None else case["tol"]
    E = np.where(np.abs(X) < tol, 0.0, X)
    close(a.array, E, "components after chopping", rtol=0, atol=0)
    close(a.show(), to_ambient(E, A, rank), "the chopped tensor in the ambient frame")
    close(twin.array, X, "another tensor of the same frame", rtol=0, atol=0)
    close(F.axes, A, "axes after chopping a tensor", rtol=0, atol=0)
    F *= 2.0
    close(a.array, E / 2.0**rank, "components after a change of the frame")
