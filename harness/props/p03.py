"""P03: geometry of frames."""

import itertools
from fractions import Fraction

import numpy as np

from harness.core import (
    arr,
    axes_of,
    close,
    equal,
    flat,
    is_orthonormal,
    is_rectangular,
    nznums,
    ok,
    plain,
    raises,
    st,
    stack_of_axes,
    sub,
)
from harness.lab import FRAMES, frame_specs, near, two_frames, units
from sigmaepsilon.math.linalg import (
    CartesianFrame,
    RectangularFrame,
    ReferenceFrame,
    Gram,
    dual_frame,
    normalize_frame,
)


def det(A):
    """Leibniz formula."""
    n = len(A)
    total = 0.0
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        x = float(s)
        for i in range(n):
            x *= A[i][p[i]]
        total += x
    return total


def comps_in(A, B):
    """Components of the vectors in the rows of A with respect to those in the rows of B."""
    return np.linalg.solve(B.T, A.T)  # columns


def three(dim):
    return st.fixed_dictionaries(
        {"dim": st.just(dim), "frames": st.lists(frame_specs(dim), min_size=3, max_size=3)}
    )


@sub(
    "P03",
    "transformations",
    st.sampled_from([1, 2, 3, 3, 4, 5]).flatmap(three),
    "at least one of three frames is not orthonormal",
    nontrivial=lambda c: any(not is_orthonormal(f[1]) for f in c["frames"]),
    quick=500,
)
def transformations(case):
    As = [arr(f[1]) for f in case["frames"]]
    Fs = [FRAMES[f[0]](a.copy()) for f, a in zip(case["frames"], As)]
    dim = case["dim"]
    eye = ReferenceFrame(dim=dim)
    for i, j in itertools.product(range(3), repeat=2):
        ref = comps_in(As[i], As[j])
        d = plain(Fs[i].dcm(target=Fs[j]))
        close(d, ref, f"DCM from frame {i} to frame {j}")
        close(Fs[j].dcm(source=Fs[i]), ref, f"DCM of frame {j} with the source {i}")
        close(Fs[i].show(Fs[j]), ref.T, f"base vectors of frame {i} in frame {j}")
        # the round trip
        back = plain(Fs[j].dcm(target=Fs[i]))
        close(back @ d, np.eye(dim), "DCM there and back", scale=np.abs(back).max() * np.abs(d).max())
    d01, d12 = plain(Fs[0].dcm(target=Fs[1])), plain(Fs[1].dcm(target=Fs[2]))
    close(d12 @ d01, Fs[0].dcm(target=Fs[2]), "composition", scale=1 + np.abs(d12).max() * np.abs(d01).max())
    for i in range(3):
        close(Fs[i].show(), As[i], "base vectors in the ambient frame")
        amb = comps_in(np.eye(dim), As[i])
        close(Fs[i].dcm(), amb, "DCM from the ambient frame")
        close(Fs[i].dcm(source=eye), amb, "DCM from a default frame")
        close(Fs[i].dcm(target=eye), As[i].T, "DCM to the ambient frame")
        close(Fs[i].axes, As[i], "the axes have not changed")


@sub(
    "P03",
    "metric",
    st.sampled_from([1, 2, 3, 3, 4]).flatmap(
        lambda d: st.fixed_dictionaries({"dim": st.just(d), "frame": frame_specs(d)})
    ),
    "the frame is not orthonormal or is left-handed",
    nontrivial=lambda c: not is_orthonormal(c["frame"][1]) or det(c["frame"][1]) < 0,
    quick=500,
)
def metric(case):
    kind, axes = case["frame"]
    A = arr(axes)
    dim = case["dim"]
    F = FRAMES[kind](A.copy())
    G = np.array([[sum(x * y for x, y in zip(a, b)) for b in axes] for a in axes])
    close(F.Gram(), G, "Gram matrix", atol=1e-8)
    close(Gram(A), G, "Gram matrix of an array", atol=1e-8)
    g = F.metric_tensor()
    ok(g.rank == 2, "rank of the metric tensor")
    close(g.show(), np.eye(dim), "the metric tensor in the ambient frame", atol=1e-7)
    close(g.array, G, "covariant components of the metric tensor", atol=1e-8)
    D = F.dual()
    ok(type(D) is type(F), f"the dual of a {type(F).__name__} is a {type(D).__name__}")
    close(plain(D.axes) @ A.T, np.eye(dim), "products of base and dual base vectors", atol=1e-8)
    close(dual_frame(A) @ A.T, np.eye(dim), "products of base and dual vectors (arrays)", atol=1e-8)
    close(D.dual().axes, A, "dual of the dual", atol=1e-8)
    close(plain(D.Gram()) @ G, np.eye(dim), "Gram matrices of dual frames", atol=1e-7)
    v = det(axes)
    close(F.volume(), v, "signed volume", atol=1e-8)
    close(D.volume() * v, 1.0, "volume of the dual", atol=1e-7)
    close(F.axes, A, "the axes have not changed", atol=0, rtol=0)
    T = F.transpose() if kind == "R" else ReferenceFrame(A).transpose()
    close(T.axes, A.T, "transposed axes", atol=0, rtol=0)
    # predicates, on clear cases only
    n = np.linalg.norm(A, axis=1)
    off = np.abs(G / np.outer(n, n) - np.eye(dim)).max()
    if off < 1e-12 or kind in "OC":
        ok(F.is_rectangular is True, "is_rectangular of a rectangular frame")
        if np.abs(n - 1).max() < 1e-12:
            ok(F.is_cartesian is True, "is_cartesian of an orthonormal frame")
        elif np.abs(n - 1).max() > 0.01 and kind != "C":
            ok(F.is_cartesian is False, "is_cartesian of a frame that is not normalized")
        RectangularFrame(A.copy())
    elif off > 0.01:
        ok(F.is_rectangular is False, "is_rectangular of a skew frame")
        ok(F.is_cartesian is False, "is_cartesian of a skew frame")
        raises(AssertionError, lambda: RectangularFrame(A.copy()), "rectangular frame from skew axes")
        raises(AssertionError, lambda: CartesianFrame(A.copy()), "cartesian frame from skew axes")
    if np.abs(n - 1).max() > 0.01:
        raises(AssertionError, lambda: CartesianFrame(A.copy()), "cartesian frame of other lengths")
    ok(bool(F.is_independent) is True, "is_independent of independent base vectors")
    Z = A.copy()
    Z[dim - 1] = 0.0
    ok(bool(ReferenceFrame(Z).is_independent) is False, "is_independent with a zero vector")
    close(normalize_frame(A), A / n[:, None], "normalized frame")
    if off < 1e-12:
        N = CartesianFrame(A.copy(), normalize=True)
        close(N.axes, A / n[:, None], "cartesian frame made by normalization")
    # defaults
    for k in FRAMES.values():
        close(k(dim=dim).axes, np.eye(dim), "default frame")
        close(k.eye(dim=dim).axes, np.eye(dim), "eye frame")


@sub(
    "P03",
    "stacks",
    st.tuples(st.integers(1, 4), st.sampled_from([2, 3])).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "a": stack_of_axes(t[0], t[1]),
                "b": stack_of_axes(t[0], t[1]),
                "c": axes_of(t[1]),
            }
        )
    ),
    "more than one frame in the stack",
    nontrivial=lambda c: len(c["a"]) > 1,
    quick=200,
)
def stacks(case):
    A, B, C = arr(case["a"]), arr(case["b"]), arr(case["c"])
    FA, FB, FC = ReferenceFrame(A.copy()), ReferenceFrame(B.copy()), ReferenceFrame(C.copy())
    n = len(A)
    close(FA.Gram(), np.array([a @ a.T for a in A]), "Gram matrices")
    close(FA.dual().axes, np.array([np.linalg.inv(a).T for a in A]), "dual frames")
    ref = np.array([comps_in(A[i], B[i]) for i in range(n)])
    close(FA.dcm(target=FB), ref, "DCM matrices")
    close(FB.dcm(source=FA), ref, "DCM matrices (source)")
    close(FA.show(FB), np.transpose(ref, (0, 2, 1)), "frames in frames")
    ref = np.array([comps_in(A[i], C) for i in range(n)])
    close(FA.dcm(target=FC), ref, "DCM matrices to a single frame")
    ref = np.array([comps_in(C, A[i]) for i in range(n)])
    close(FC.dcm(target=FA), ref, "DCM matrices from a single frame")
    close(FA.transpose().axes, np.transpose(A, (0, 2, 1)), "transposed frames")
    close(FA.axes, A, "the axes have not changed", rtol=0, atol=0)


OPS = ["imul", "idiv", "iadd", "isub", "imatmul", "ipow", "mul", "div", "mul_arr", "imul_arr", "idiv_arr", "add", "ufunc"]


@sub(
    "P03",
    "classes",
    st.sampled_from([2, 3]).flatmap(
        lambda d: st.fixed_dictionaries(
            {
                "kind": st.sampled_from(["O", "C", "R"]),
                "axes": axes_of(d, ("orthonormal", "reflected")),
                "s": nznums(0.25, 3),
                "op": st.sampled_from(OPS),
                "M": axes_of(d, ("skew",)),
            }
        )
    ),
    "every case: an operation on a frame of some class",
    quick=300,
)
def classes(case):
    A = arr(case["axes"])
    s, M = case["s"], arr(case["M"])
    kind = case["kind"]
    F = F0 = FRAMES[kind](A.copy())
    op = case["op"]
    general = ReferenceFrame
    if op == "imul":
        F *= s
        exp, cls = A * s, {"R": general, "O": RectangularFrame, "C": RectangularFrame}[kind]
    elif op == "idiv":
        F /= s
        exp, cls = A / s, {"R": general, "O": RectangularFrame, "C": RectangularFrame}[kind]
    elif op == "iadd":
        F += M
        exp, cls = A + M, general
    elif op == "isub":
        F -= M
        exp, cls = A - M, general
    elif op == "imatmul":
        F @= M
        exp, cls = A @ M, general
    elif op == "ipow":
        F **= 3
        exp, cls = A**3, general
    elif op == "mul":
        F = F * s
        exp, cls = A * s, general if kind == "R" else RectangularFrame
    elif op == "div":
        F = F / s
        exp, cls = A / s, general if kind == "R" else RectangularFrame
    elif op == "mul_arr":
        F = F * M
        exp, cls = A * M, general
    elif op == "imul_arr":
        F *= M
        exp, cls = A * M, general
    elif op == "idiv_arr":
        F /= np.abs(M) + 1
        exp, cls = A / (np.abs(M) + 1), general
    elif op == "add":
        F = F + M
        exp, cls = A + M, general
    elif op == "ufunc":
        F = np.absolute(F)
        exp, cls = np.abs(A), general
    close(F.axes, exp, f"axes after {op}")
    ok(type(F) is cls, f"a {type(F0).__name__} became a {type(F).__name__} after {op}")
    if op in ("mul", "div", "mul_arr", "add", "ufunc"):
        close(F0.axes, A, "the operand has not changed", rtol=0, atol=0)
        ok(F is not F0, "a new frame is returned")
    if op == "ufunc" and kind in "OC":
        raises(NotImplementedError, lambda: np.absolute(F0, out=F0), "in-place function of a special frame")
        close(F0.axes, A, "axes after a refused in-place function", rtol=0, atol=0)


@sub(
    "P03",
    "units",
    st.tuples(units(classes=("Vector",)), st.sampled_from(["skew", "rectangular"])).flatmap(
        lambda t: axes_of(t[0]["dim"], (t[1],)).map(lambda a: dict(t[0], f=a, kind=t[1]))
    ),
    "the frames are of different magnitudes or next to each other",
    nontrivial=lambda c: c["e"] or c["fk"] != c["gk"],
    quick=300,
)
def other_units(case):
    """Long and short base vectors."""
    d = case["dim"]
    f, fk, g, gk = two_frames(case)
    k, j = 10.0**fk, 10.0**gk
    A, B = f * k, g * j
    F, G = ReferenceFrame(A.copy()), ReferenceFrame(B.copy())
    near(F.dcm(target=G), comps_in(f, g) * (k / j), "DCM")
    near(G.dcm(source=F), comps_in(f, g) * (k / j), "DCM with a source")
    near(F.dual().axes, np.linalg.inv(arr(case["f"])).T / k, "dual")
    near(F.Gram(), arr(case["f"]) @ arr(case["f"]).T * k * k, "Gram matrix")
    near(F.volume(), det(case["f"]) * k**d, "volume")
    near(F.show(G), comps_in(f, g).T * (k / j), "base vectors in another frame")
    near(normalize_frame(A), arr(case["f"]) / np.linalg.norm(case["f"], axis=1)[:, None], "normalized frame")
    ok(bool(F.is_independent), "independence")
    U = arr(case["f"])
    n = np.linalg.norm(U, axis=1)
    off = np.abs((U @ U.T) / np.outer(n, n) - np.eye(d)).max()
    if off < 1e-12:
        ok(bool(F.is_rectangular), "a rectangular frame")
        R = RectangularFrame(A.copy())
        near(R.dual().axes, np.linalg.inv(U).T / k, "dual of a rectangular frame")
        C = CartesianFrame(A.copy(), normalize=True)
        near(C.axes, U / n[:, None], "normalized axes")
    elif off > 0.01:
        ok(not F.is_rectangular, "a skew frame is said to be rectangular")
        ok(not F.is_cartesian, "a skew frame is said to be Cartesian")
        raises(AssertionError, lambda: RectangularFrame(A.copy()), "rectangular frame from skew axes")
    # base vectors of different lengths
    S = U * (10.0 ** (arr([case["gk"], case["hk"], case["fk"], 0])[:d]))[:, None]
    # (the inverse of the base vectors is accurate relative to the longest one only)
    c = 10.0 ** np.clip(arr([case["gk"], case["hk"], case["fk"], 0])[:d], -5, 4)
    V = U * c[:, None]
    W = ReferenceFrame(V.copy())
    ref = np.linalg.inv(U).T
    near(plain(W.dual().axes) * c[:, None], ref, "dual of base vectors of different lengths", rtol=1e-5)
    near(plain(W.dcm(target=ReferenceFrame(g.copy()))) / c, comps_in(U, g), "DCM from base vectors of different lengths", rtol=1e-5)
    near(plain(W.dcm()) * c[:, None], ref, "DCM from the ambient frame", rtol=1e-5)
    near(W.volume() / np.prod(c), det(U), "volume of base vectors of different lengths", rtol=1e-5)
    near(plain(W.Gram()) / np.outer(c, c), U @ U.T, "Gram matrix of base vectors of different lengths")
    if off < 1e-12:
        ok(bool(ReferenceFrame(S).is_rectangular), "a rectangular frame, base vectors of different lengths")
    elif off > 0.01:
        ok(not ReferenceFrame(S).is_rectangular, "a skew frame with base vectors of different lengths is said to be rectangular")
    if case["fk"]:
        ok(not F.is_cartesian, "a frame of long or short base vectors is said to be Cartesian")


@sub(
    "P03",
    "arrays",
    st.sampled_from([1, 2, 3, 3, 4]).flatmap(
        lambda d: st.fixed_dictionaries(
            {"dim": st.just(d), "a": frame_specs(d), "b": frame_specs(d), "s": nznums(0.25, 3)}
        )
    ),
    "the frames are different",
    nontrivial=lambda c: c["a"][1] != c["b"][1],
    quick=150,
)
def arrays(case):
    """Frames in NumPy functions stand for the arrays of their base vectors."""
    A, B, s, d = arr(case["a"][1]), arr(case["b"][1]), case["s"], case["dim"]
    F, G = FRAMES[case["a"][0]](A.copy()), FRAMES[case["b"][0]](B.copy())
    m = 1 + np.abs(A).max() * np.abs(B).max() * d
    for name in ("concatenate", "vstack", "hstack", "stack"):
        close(getattr(np, name)([F, G]), getattr(np, name)([A, B]), name)
        close(getattr(np, name)((F, B)), getattr(np, name)((A, B)), name)
    close(np.einsum("ij,kj", F, G), A @ B.T, "einsum", scale=m)
    close(np.dot(F, G), A @ B, "dot", scale=m)
    close(np.linalg.inv(F), np.linalg.inv(A), "inverse", scale=1 + np.abs(np.linalg.inv(A)).max(), rtol=1e-8)
    close(np.transpose(F), A.T, "transpose")
    close(np.sum(F, axis=0), A.sum(axis=0), "sum")
    equal(bool(np.allclose(F, A)), True, "closeness to the array")
    equal(np.shape(F), (d, d), "shape")
    equal(len(F), d, "length")
    for i in range(d):
        close(F[i], A[i], "a base vector")
    close(np.array([np.array(x) for x in F]), A, "iteration")
    lo, hi = F.minmax
    equal((float(lo), float(hi)), (A.min(), A.max()), "extremes")
    # universal functions return general frames
    for name, x, y in (("add", A, B), ("subtract", A, B), ("matmul", A, B), ("maximum", A, B), ("multiply", A, s)):
        r = getattr(np, name)(F, G if y is B else s)
        ok(type(r) is ReferenceFrame, f"{name} of frames is a {type(r).__name__}")
        close(r.axes, getattr(np, name)(x, y), name, scale=m)
    r = np.multiply(s, F)
    close(r.axes, s * A, "a number times a frame")
    two = np.modf(F)
    ok(isinstance(two, tuple) and len(two) == 2, f"modf returns a {type(two).__name__}")
    for r, e in zip(two, np.modf(A)):
        ok(isinstance(r, ReferenceFrame), "modf: not a frame")
        close(r.axes, e, "modf")
    out = np.zeros((d, d))
    np.add(F, G, out=out)
    close(out, A + B, "a sum written to an array")
    raises(TypeError, lambda: F + "1", "a frame and a text")
    close(F.axes, A, "the first frame has not changed", rtol=0, atol=0)
    close(G.axes, B, "the second frame has not changed", rtol=0, atol=0)
    # names
    F.name = "name"
    equal(F.name, "name", "name")
    raises(TypeError, lambda: setattr(F, "name", 1), "a name that is not a text")


@sub(
    "P03",
    "nearly_dependent",
    st.integers(2, 4).flatmap(
        lambda d: st.fixed_dictionaries(
            {
                "f": axes_of(d, ("general", "general", "left")),
                "row": st.integers(0, d - 1),
                "weights": flat(d, nznums(-1, 1, 8)),
                "eps": st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6]),
            }
        )
    ),
    "always",
    quick=120,
)
def nearly_dependent(case):
    """Frames with a base vector close to the span of the others."""
    A = arr(case["f"]).copy()
    d, r, e = len(A), case["row"], case["eps"]
    A[r] = e * A[r] + sum(case["weights"][i] * A[i] for i in range(d) if i != r)
    # exact determinant by cofactors

    def exact(M):
        if not M:
            return Fraction(1)
        return sum((-1) ** j * M[0][j] * exact([row[:j] + row[j + 1 :] for row in M[1:]]) for j in range(len(M)))

    v = exact([[Fraction(float(x)) for x in row] for row in A])
    size = float(np.prod(np.linalg.norm(A, axis=1)))
    if abs(v) < 1e-9 * size:
        return
    F = ReferenceFrame(A.copy())
    close(F.volume(), float(v), "signed volume", rtol=1e-9, atol=1e-12 * size)
    D = plain(F.dual())
    close(D @ A.T, np.eye(d), "products of the base vectors and of the dual ones", atol=1e-12 * size / abs(float(v)) * 100)
