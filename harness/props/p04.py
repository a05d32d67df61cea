"""P04: rotations."""

import math

import numpy as np

from harness.core import (
    arr,
    axes_of,
    close,
    euler,
    flat,
    nums,
    ok,
    plain,
    spread,
    st,
    stack_of_axes,
    sub,
)
from harness.lab import ANG, CLASSES, FRAMES, ORDERS, build, frame_specs
from sigmaepsilon.math.linalg import ReferenceFrame, Tensor, Tensor2, Vector, rotation_matrix

# more than a turn in both directions, and multiples of a right angle or thereabouts
ANGLE = st.one_of(ANG, nums(-7, 7, 64), nums(-20, 20, 64), st.integers(-24, 24).map(lambda k: k * math.pi / 4), st.sampled_from([1e-3, -1e-4, 1e-5, -1e-6, 1e-7, math.pi - 1e-5]))
ANGLES = st.lists(ANGLE, min_size=3, max_size=3)
SEQ = ["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX", "XYX", "XZX", "YXY", "YZY", "ZXZ", "ZYZ"]


def rodrigues(axis, angle):
    k = np.array(axis, dtype=float) / np.linalg.norm(axis)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * (K @ K)


ROT = st.one_of(
    st.fixed_dictionaries(
        {
            "type": st.sampled_from(["Body", "Space"]),
            "angles": ANGLES,
            "order": st.sampled_from(SEQ + ["123", "312", "323", "xyz", "zYx", "x3Y"]),
            "int": st.booleans(),
        }
    ),
    st.fixed_dictionaries(
        {
            "type": st.sampled_from(["Quaternion", "DCM"]),
            "axis": flat(3, st.integers(-8, 8)).filter(lambda v: any(v)),
            "angle": ANGLE,
        }
    ),
)


def args_and_R(rot):
    """Arguments of the library and the active rotation matrix they stand for."""
    t = rot["type"]
    if t in ("Body", "Space"):
        order = rot["order"]
        R = euler(t, rot["angles"], order)
        if order.isdigit() and rot["int"]:
            order = int(order)
        return (t, list(rot["angles"]), order), R
    R = rodrigues(rot["axis"], rot["angle"])
    if t == "Quaternion":
        k = np.array(rot["axis"], dtype=float)
        k /= np.linalg.norm(k)
        c, s = math.cos(rot["angle"] / 2), math.sin(rot["angle"] / 2)
        return (t, (c, float(s * k[0]), float(s * k[1]), float(s * k[2]))), R
    import sympy as sy

    return (t, sy.Matrix(R.tolist())), R


def moving(rot):
    _, R = args_and_R(rot)
    return not np.allclose(R, np.eye(3))


@sub(
    "P04",
    "matrix",
    ROT,
    "the rotation is not the identity",
    nontrivial=moving,
    quick=400,
)
def matrix(rot):
    args, R = args_and_R(rot)
    Q = plain(rotation_matrix(*args))
    close(Q @ Q.T, np.eye(3), "orthonormality of a rotation matrix")
    close(np.linalg.det(Q), 1.0, "determinant of a rotation matrix")
    close(Q, R.T, f"the direction cosine matrix of {args}")


@sub(
    "P04",
    "frames",
    st.fixed_dictionaries(
        {
            "frame": frame_specs(3),
            "rot": ROT,
            "rot2": ROT,
            "comps": flat(3, nums()),
            "stack": stack_of_axes(2, 3),
            "copies": st.sampled_from([1, 1, 2, 6, 20]),
        }
    ),
    "the rotation is not the identity",
    nontrivial=lambda c: moving(c["rot"]),
    quick=350,
    shards=2,
)
def frames(case):
    kind, axes = case["frame"]
    A = arr(axes)
    args, R = args_and_R(case["rot"])
    args2, R2 = args_and_R(case["rot2"])
    F = FRAMES[kind](A.copy())
    v = Vector(arr(case["comps"]), frame=F)
    amb = A.T @ arr(case["comps"])
    new = F.orient_new(*args)
    ok(type(new) is type(F), f"orient_new of a {type(F).__name__} gives a {type(new).__name__}")
    exp = A @ R.T
    close(new.axes, exp, "orient_new")
    close(F.rotate_new(*args).axes, exp, "rotate_new")
    close(F.rotate(*args, inplace=False).axes, exp, "rotate, out of place")
    ok(F.orient_new(*args, name="B").name == "B", "name of the new frame")
    close(F.axes, A, "the original frame after orient_new", rtol=0, atol=0)
    close(v.array, case["comps"], "components of a vector in the original frame", rtol=0, atol=0)
    close(new.Gram(), A @ A.T, "rotations preserve the metric", atol=1e-8)
    close(new.volume(), np.linalg.det(A), "rotations preserve the volume", atol=1e-8)
    F1, F2, F3 = (FRAMES[kind](A.copy()) for _ in range(3))
    ok(F1.orient(*args) is F1, "orient returns the frame itself")
    ok(F2.rotate(*args) is F2, "rotate returns the frame itself")
    F3.rotate(*args, inplace=True)
    for f in (F1, F2, F3):
        close(f.axes, exp, "axes after orient or rotate")
    # a sequence of rotations
    close(new.orient_new(*args2).axes, exp @ R2.T, "two rotations after each other")
    F.orient(*args)
    F.orient(*args2)
    close(F.axes, exp @ R2.T, "two rotations in place")
    close(v.show(), amb, "a vector attached to a rotating frame", scale=1 + np.abs(amb).max())
    S = np.concatenate([arr(case["stack"]) * (k + 1) for k in range(case["copies"])])
    FS = ReferenceFrame(S.copy())
    close(FS.orient_new(*args).axes, np.array([s @ R.T for s in S]), "rotation of a stack of frames")
    FS.orient(*args)
    close(FS.axes, np.array([s @ R.T for s in S]), "rotation of a stack of frames in place")


def tcase():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["R", "O", "C"]),
            "axes": axes_of(3, ("orthonormal", "eye", "reflected")),
            "cls": st.sampled_from(["Vector", "Tensor1", "Tensor2", "GTensor2", "Tensor3", "Tensor2x3", "Tensor4x3", "VectorBulk", "Tensor2Bulk"]),
            "comps": flat(5, nums()),
            "n": st.integers(1, 4),
            "rot": ROT,
        }
    )


@sub(
    "P04",
    "tensors",
    tcase(),
    "the rotation is not the identity",
    nontrivial=lambda c: moving(c["rot"]),
    quick=300,
    shards=2,
)
def tensors(case):
    A = arr(case["axes"])
    F = FRAMES[case["kind"]](A.copy())
    cls = case["cls"]
    bulk = cls.endswith("Bulk")
    cls = cls.replace("Bulk", "")
    rank = CLASSES[cls][1]
    shape = (case["n"],) * bulk + (3,) * rank
    X = spread(case["comps"], shape)
    args, R = args_and_R(case["rot"])
    # the components are those of the rotated tensor
    exp = X
    for k in range(X.ndim - rank, X.ndim):
        exp = np.moveaxis(np.tensordot(exp, R, axes=([k], [1])), -1, k)
    T = build(cls, X, F, bulk)
    N = T.orient_new(*args)
    m = 1 + np.abs(X).max()
    close(N.array, exp, "components after orient_new", scale=m)
    close(T.array, X, "the original after orient_new", rtol=0, atol=0)
    ok(N.rank == rank, "rank after orient_new")
    ok(type(N) is type(T), "class after orient_new")
    close(N.frame.axes, A, "frame of the rotated tensor")
    ok(bool(N.is_bulk()) == bulk, "bulk flag of the rotated tensor")
    ok(T.orient(*args) is T, "orient returns the tensor itself")
    close(T.array, exp, "components after orient", scale=m)
    close(F.axes, A, "the frame after the tensor was rotated", rtol=0, atol=0)
    # norms are invariant
    close(np.linalg.norm(plain(T.array)), np.linalg.norm(X), "norm of a rotated tensor", scale=m)
    if cls == "Vector":
        U = build(cls, X, F, bulk)
        U.orient(dcm=R.T.copy())
        close(U.array, exp, "components after orient with a DCM", scale=m)
