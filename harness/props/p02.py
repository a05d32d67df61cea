"""P02: copies equal the original and are independent of it."""

import numpy as np

from harness.core import arr, axes_of, close, nums, ok, plain, st, sub
from harness.lab import (
    CLASSES,
    FRAMES,
    arith_ops,
    build,
    copy_ops,
    frame_ops,
    frame_specs,
    histories,
    run_history,
    tensor_ops,
    tensor_specs,
)

COPY = ("copy", "copy_frame")


def inplace(dim):
    return [o for o in arith_ops(dim)[:4]]


@sub(
    "P02",
    "history",
    histories([copy_ops, copy_ops, frame_ops, inplace, tensor_ops], max_ops=12),
    "something is modified after a copy was made",
    nontrivial=lambda c: any(
        o[0] in COPY and any(p[0] not in COPY for p in c["ops"][i + 1 :])
        for i, o in enumerate(c["ops"])
    ),
    quick=800,
    shards=4,
)
def history(case):
    run_history(case)


def _inputs(dim):
    return st.fixed_dictionaries(
        {
            "dim": st.just(dim),
            "frame": frame_specs(dim),
            "tensor": tensor_specs(dim),
            "order": st.sampled_from(["C", "F", "view", "list"]),
        }
    )


def layout(a, order):
    if order == "F":
        return np.array(a, order="F", copy=True)
    if order == "view":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
        b[..., ::2] = a
        return b[..., ::2]
    return a.copy()


@sub(
    "P02",
    "construct",
    st.sampled_from([1, 2, 3, 4]).flatmap(_inputs),
    "the source arrays are overwritten after construction",
    quick=300,
)
def construct(case):
    kind, axes = case["frame"]
    cls, _, comps = case["tensor"]
    A, C = arr(axes), arr(comps)
    a, c = layout(A, case["order"]), layout(C, case["order"])
    F = FRAMES[kind](a)
    klass, rank = CLASSES[cls]
    if C.ndim > rank and klass.__name__ != "Vector":
        T = klass(c, frame=F, bulk=True)
    else:
        T = klass(c, frame=F)
    close(F.axes, A, "axes of a new frame")
    close(T.array, C, "components of a new tensor")
    a[...] = 99.0
    c[...] = 99.0
    close(F.axes, A, "axes after the source array was overwritten")
    close(T.array, C, "components after the source array was overwritten")
    # what is shown to the user is detached from the object
    s = T.show()
    before = plain(s)
    s[...] = 55.0
    close(T.array, C, "components after the shown array was overwritten")
    close(T.show(), before, "shown components after the shown array was overwritten")
    t = T.show(F)
    t[...] = 55.0
    close(T.array, C, "components after the array shown in its own frame was overwritten")
    d = F.dcm(target=FRAMES["R"](np.eye(case["dim"])))
    d[...] = 3.0
    close(F.axes, A, "axes after the transformation matrix was overwritten")
    # a named copy
    n = F.copy(name="N")
    ok(n.name == "N", "name of a copy")
    n2 = F.deepcopy(name="M")
    ok(n2.name == "M", "name of a deep copy")
    n.axes = A * 1.0 if kind != "C" else A
    close(F.axes, A, "axes after the copy was set")
