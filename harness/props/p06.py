"""P06: dot products and contractions do not depend on the frames of the operands."""

import numpy as np

from harness.core import (
    arr,
    close,
    flat,
    from_ambient,
    is_orthonormal,
    nums,
    ok,
    plain,
    raises,
    spread,
    st,
    sub,
    to_ambient,
)
from harness.lab import CLASSES, FRAMES, build, collection_operands, collection_pairs, frame_specs, near, neighbour
from sigmaepsilon.math.linalg import ReferenceFrame, Tensor, Tensor2, Vector, dot
from sigmaepsilon.math.linalg.exceptions import LinalgMissingInputError

SIMPLE = [
    ("Vector", "Vector"),
    ("Tensor2", "Vector"),
    ("Vector", "Tensor2"),
    ("Tensor2", "Tensor2"),
    ("GTensor2", "GTensor2"),
    ("GTensor2", "Vector"),
    ("Vector", "GTensor2"),
    ("Tensor1", "Tensor1"),
    ("Tensor2", "Tensor1"),
    ("Tensor1", "Tensor2"),
    ("Tensor2", "GTensor2"),
    ("Tensor2x3", "Tensor2x3"),
    ("Tensor2x3", "Vector"),
    ("Vector", "Tensor2x3"),
]


def pair(dim, pairs):
    pairs = [p for p in pairs if dim == 3 or "x3" not in p[0] + p[1]]
    pairs = [p for p in pairs if dim < 3 or p[0][-1] not in "56" and p[1][-1] not in "56"]
    return st.fixed_dictionaries(
        {
            "dim": st.just(dim),
            "f": frame_specs(dim),
            "g": frame_specs(dim),
            "h": st.none() | frame_specs(dim) | st.sampled_from(["f", "g"]),
            "classes": st.sampled_from(pairs).map(list),
            "a": flat(6, nums()),
            "b": flat(6, nums()),
            "same": st.integers(0, 3).map(lambda i: i == 0),
        }
    )


def skew(c):
    return not (is_orthonormal(c["f"][1]) and is_orthonormal(c["g"][1]))


def operands(case):
    dim = case["dim"]
    F = FRAMES[case["f"][0]](arr(case["f"][1]))
    G = F if case["same"] else FRAMES[case["g"][0]](arr(case["g"][1]))
    AF, AG = arr(case["f"][1]), arr(case["f" if case["same"] else "g"][1])
    if case["h"] in ("f", "g"):  # the frame of one of the operands
        H = {"f": F, "g": G}[case["h"]]
    else:
        H = FRAMES[case["h"][0]](arr(case["h"][1])) if case["h"] else None
    ca, cb = case["classes"]
    ra, rb = CLASSES[ca][1], CLASSES[cb][1]
    X, Y = spread(case["a"], (dim,) * ra), spread(case["b"], (dim,) * rb)
    return F, G, H, ca, cb, ra, rb, X, Y, to_ambient(X, AF, ra), to_ambient(Y, AG, rb)


@sub(
    "P06",
    "products",
    st.sampled_from([1, 2, 3, 3, 4]).flatmap(lambda d: pair(d, SIMPLE)),
    "at least one operand is in a frame that is not orthonormal",
    nontrivial=skew,
    quick=1000,
    shards=2,
)
def products(case):
    F, G, H, ca, cb, ra, rb, X, Y, x, y = operands(case)
    a, b = build(ca, X, F, False), build(cb, Y, G, False)
    exp = np.tensordot(x, y, axes=([ra - 1], [0]))
    m = 1 + np.abs(x).max() * np.abs(y).max()
    if ra == rb == 1:
        close(dot(a, b), exp, "dot product of vectors", scale=m, rtol=1e-8)
        close(np.dot(a, b), exp, "dot product of vectors with NumPy", scale=m, rtol=1e-8)
        close(dot(b, a), exp, "dot product of vectors, swapped", scale=m, rtol=1e-8)
        return
    for k, f in enumerate((dot, np.dot)):
        in_h = H is not None and f is dot
        r = f(a, b, frame=H) if in_h else f(a, b)
        ok(r.rank == ra + rb - 2, f"rank {r.rank} of the product")
        close(r.show(), exp, f"{ca} . {cb}", scale=m, rtol=1e-8)
        if in_h:
            ok(r.frame is H, "frame of the product")
            ref = from_ambient(exp, plain(H.axes), r.rank)
            close(r.array, ref, "components of the product in a frame", scale=m + np.abs(ref).max(), rtol=1e-8)
    close(a.array, X, "first operand", rtol=0, atol=0)
    close(b.array, Y, "second operand", rtol=0, atol=0)
    close(F.axes, case["f"][1], "frame of the first operand", rtol=0, atol=0)
    # associativity with a vector
    if ra == rb == 2:
        v = Vector(spread(case["a"], (case["dim"],)), frame=G)
        close(
            dot(dot(a, b), v).show(), dot(a, dot(b, v)).show(), "associativity",
            scale=m * (1 + np.abs(plain(v.show())).max()) * 4, rtol=1e-8,
        )


GENERAL = [
    ("Tensor3", "Vector"),
    ("Tensor3", "GTensor2"),
    ("GTensor2", "Tensor3"),
    ("Tensor3", "Tensor3"),
    ("GTensor4", "Tensor3"),
    ("Tensor4", "GTensor2"),
    ("GTensor4", "Vector"),
    ("Tensor3", "Tensor2"),
    ("Tensor4", "Tensor4"),
    ("Tensor5", "Vector"),
    ("GTensor2", "Tensor5"),
    ("Tensor5", "Tensor3"),
    ("Tensor6", "Tensor1"),
]


@sub(
    "P06",
    "contractions",
    st.sampled_from([2, 2, 3]).flatmap(
        lambda d: st.tuples(pair(d, GENERAL), st.integers(0, 11), st.integers(0, 11)).map(
            lambda t: {**t[0], "i": t[1], "j": t[2]}
        )
    ),
    "at least one operand is in a frame that is not orthonormal",
    nontrivial=skew,
    quick=500,
)
def contractions(case):
    F, G, H, ca, cb, ra, rb, X, Y, x, y = operands(case)
    a, b = build(ca, X, F, False), build(cb, Y, G, False)
    i, j = case["i"] % ra, case["j"] % rb
    exp = np.tensordot(x, y, axes=([i], [j]))
    m = 1 + np.abs(x).max() * np.abs(y).max()
    r = dot(a, b, axes=(i, j), frame=H) if H is not None else dot(a, b, axes=[i, j])
    ok(r.rank == ra + rb - 2, f"rank {r.rank} of the contraction")
    close(r.show(), exp, f"contraction of {ca} and {cb} along {i}, {j}", scale=m, rtol=1e-7)
    if H is not None:
        ok(r.frame is H, "frame of the contraction")
        ref = from_ambient(exp, plain(H.axes), ra + rb - 2)
        close(r.array, ref, "components of the contraction in a frame", scale=m + np.abs(ref).max(), rtol=1e-7)
    raises(LinalgMissingInputError, lambda: dot(a, b), "contraction without axes")


@sub(
    "P06",
    "collections",
    collection_pairs(),
    "more than one item",
    nontrivial=lambda c: c["n"] > 1,
    quick=500,
)
def collections(case):
    (a, X, F, A, x, xs), (b, Y, G, B, y, ys) = collection_operands(case)
    ka, kb = case["what"]
    rank = 1 if ka[0] == "v" else 2
    exp = np.array([p @ q for p, q in zip(xs, ys)])
    m = 1 + max(np.abs(p).max() for p in xs) * max(np.abs(q).max() for q in ys)
    what = f"{ka} . {kb}, {case['n']} items"
    for f in (dot, np.dot):
        r = f(a, b)
        if ka[0] == kb[0] == "v":
            close(r, exp, what, scale=m, rtol=1e-8)
            continue
        close(r.show(), exp, what, scale=m, rtol=1e-8)
        ok(r.is_bulk() is True, f"{what}: the product is not a collection")
        ok(r.rank == (2 if ka[0] == kb[0] else 1), f"{what}: rank {r.rank}")
        ok(len(r) == case["n"], f"{what}: size of the collection")
    if case["h"] and not ka[0] == kb[0] == "v":
        H = FRAMES[case["h"][0]](arr(case["h"][1]))
        r = dot(a, b, frame=H)
        ok(r.frame is H, f"{what}: frame of the product")
        ref = from_ambient(exp, case["h"][1], r.rank)
        close(r.array, ref, f"{what}: components in a frame", scale=m + np.abs(ref).max(), rtol=1e-8)
    close(a.array, X, "first operand", rtol=0, atol=0)
    close(b.array, Y, "second operand", rtol=0, atol=0)
    close(F.axes, A, "frame of the first operand", rtol=0, atol=0)
    close(G.axes, B, "frame of the second operand", rtol=0, atol=0)


@sub(
    "P06",
    "arrays",
    st.tuples(frame_specs(3), frame_specs(3), st.integers(1, 5), flat(6, nums()), flat(6, nums())).map(
        lambda t: dict(zip("fgnab", t))
    ),
    "more than one row",
    nontrivial=lambda c: c["n"] > 1,
    quick=100,
)
def arrays(case):
    n, d = case["n"], 3
    X, Y = spread(case["a"], (n, d)), spread(case["b"], (d, n))
    close(dot(X, Y), X @ Y, "dot product of arrays")
    out = np.zeros((n, n))
    dot(X, Y, out=out)
    close(out, X @ Y, "dot product of arrays, with out")
    F = FRAMES[case["f"][0]](arr(case["f"][1]))
    close(dot(F, arr(case["g"][1])), arr(case["f"][1]) @ arr(case["g"][1]), "dot of a frame and an array")


@sub(
    "P06",
    "units",
    st.sampled_from([1, 2, 3, 3]).flatmap(
        lambda d: st.tuples(pair(d, SIMPLE), flat(5, st.integers(-7, 7) | st.sampled_from([-12, -10, -9, 9, 12])), st.sampled_from([0, 0, 4, 5, 6, 7])).map(
            lambda t: {**t[0], "k": t[1], "e": t[2]}
        )
    ),
    "at least one operand is in a frame that is not orthonormal",
    nontrivial=skew,
    quick=300,
)
def other_units(case):
    """Operands of very different magnitudes in frames of very different magnitudes."""
    dim, k = case["dim"], [10.0**e for e in case["k"]]
    A, B = arr(case["f"][1]) * k[0], arr(case["g"][1]) * k[1]
    if case["e"]:
        B = neighbour(arr(case["f"][1]), case["e"]) * k[0]
    F, G = ReferenceFrame(A.copy()), ReferenceFrame(B.copy())
    if case["same"]:
        G, B = F, A
    ca, cb = case["classes"]
    ra, rb = CLASSES[ca][1], CLASSES[cb][1]
    X, Y = spread(case["a"], (dim,) * ra) * k[2], spread(case["b"], (dim,) * rb) * k[3]
    a, b = build(ca, X, F, False), build(cb, Y, G, False)
    x, y = to_ambient(X, A, ra), to_ambient(Y, B, rb)
    exp = np.tensordot(x, y, axes=([ra - 1], [0]))
    m = np.abs(x).max() * np.abs(y).max()
    r = dot(a, b)
    near(r if ra == rb == 1 else r.show(), exp, f"{ca} . {cb}", m)
    if not ra == rb == 1:
        H = ReferenceFrame(B[::-1] * k[4])
        r = dot(a, b, frame=H)
        near(r.show(), exp, f"{ca} . {cb} in another frame", m)


@sub(
    "P06",
    "many",
    st.fixed_dictionaries(
        {
            "f": frame_specs(3),
            "g": frame_specs(3),
            "n": st.one_of(st.integers(6, 40), st.integers(41, 300)),
            "a": flat(6, nums()),
            "b": flat(6, nums()),
            "what": st.sampled_from(["T2bT2b", "T2vb"]),
        }
    ),
    "more than 40 items",
    nontrivial=lambda c: c["n"] > 40,
    quick=80,
)
def many(case):
    n = case["n"]
    A, B = arr(case["f"][1]), arr(case["g"][1])
    F, G = FRAMES[case["f"][0]](A.copy()), FRAMES[case["g"][0]](B.copy())
    if case["what"] == "T2bT2b":
        X, Y = spread(case["a"], (n, 3, 3)), spread(case["b"], (n, 3, 3))
        r = dot(Tensor2(X, frame=F, bulk=True), Tensor2(Y, frame=G, bulk=True))
        x, y = to_ambient(X, A, 2), to_ambient(Y, B, 2)
        e = np.einsum("nij,njk->nik", x, y)
    else:
        X, Y = spread(case["a"], (3, 3)), spread(case["b"], (n, 3))
        r = dot(Tensor2(X, frame=F), Vector(Y, frame=G))
        x, y = to_ambient(X, A, 2), to_ambient(Y, B, 1)
        e = np.einsum("ij,nj->ni", x, y)
    close(r.show(), e, "products of the items", scale=1 + np.abs(x).max() * np.abs(y).max(), rtol=1e-8)
