"""P01: tensors are objective under any history of changes of their frames."""

import gc

import numpy as np

from harness.core import arr, axes_of, close, flat, nums, nznums, ok, plain, spread, st, sub, to_ambient, from_ambient
from harness.lab import (
    CLASSES,
    FRAMES,
    build,
    near,
    unit_operands,
    units,
    arith_ops,
    coinciding,
    copy_ops,
    frame_ops,
    histories,
    run_history,
    stack_histories,
    tensor_ops,
)

FR = {
    "set", "imul", "idiv", "iadd_to", "isub_to", "iadd_scalar", "imatmul", "ipow", "ufunc",
    "transpose_frame", "orient", "attach", "attach_axes", "set_same", "nudge",
}


@sub(
    "P01",
    "history",
    histories([frame_ops, frame_ops, tensor_ops]),
    "at least two changes of frames and a tensor with nonzero components",
    nontrivial=lambda c: sum(o[0] in FR for o in c["ops"]) >= 2,
    quick=400,
    shards=3,
)
def history(case):
    run_history(case)


@sub(
    "P01",
    "mixed",
    histories([frame_ops, tensor_ops, arith_ops, copy_ops], max_ops=12),
    "a change of a frame after a tensor was created by an operation or a copy",
    nontrivial=lambda c: any(
        o[0] in ("binary", "scale", "neg", "dual", "T", "copy")
        and any(p[0] in FR for p in c["ops"][i + 1 :])
        for i, o in enumerate(c["ops"])
    ),
    quick=300,
    shards=3,
)
def mixed(case):
    run_history(case)


@sub(
    "P01",
    "coinciding",
    coinciding(),
    "a tensor moves to another frame, followed by a change of a frame",
    nontrivial=lambda c: any(
        o[0] in ("twin", "attach", "visit") and any(p[0] in FR for p in c["ops"][i + 1 :])
        for i, o in enumerate(c["ops"])
    ),
    quick=400,
    shards=2,
)
def coincide(case):
    run_history(case)


@sub(
    "P01",
    "stack",
    stack_histories(),
    "a change of a frame that is a stack of frames, one for each item of a collection",
    nontrivial=lambda c: any(o[0] in FR for o in c["ops"])
    and any(isinstance(f[1][0][0], list) for f in c["frames"]),
    quick=300,
)
def stack(case):
    run_history(case)


@sub(
    "P01",
    "units",
    units(),
    "the frames are of different magnitudes or next to each other",
    nontrivial=lambda c: c["e"] or c["fk"] != c["gk"],
    quick=300,
)
def other_units(case):
    """Long and short base vectors, large and small components."""
    cls, bulk, rank, A, B, X, Y = unit_operands(case)
    F, G = FRAMES["R"](A.copy()), FRAMES["R"](B.copy())
    t = build(cls, X, F, bulk)
    amb = to_ambient(X, A, rank)
    inG = from_ambient(amb, B, rank)
    near(t.show(), amb, "ambient components")
    near(t.show(G), inG, "components in another frame")
    u = build(cls, X, F, bulk)
    u.frame = G
    near(u.array, inG, "components after the frame was set")
    C = B[::-1] * 10.0 ** case["hk"]
    F.axes = C.copy()
    near(t.show(), amb, "ambient components after the axes were set")
    near(t.array, from_ambient(amb, C, rank), "components after the axes were set")
    G *= 10.0 ** case["hk"]
    near(u.array, inG * 10.0 ** (-case["hk"] * rank), "components after the frame was scaled")
    near(u.show(), amb, "ambient components after the frame was scaled")
    F /= case["s"]
    near(t.show(), amb, "ambient components after the frame was scaled again")
    F @= np.array(case["f"])
    near(t.show(), amb, "ambient components after the frame was multiplied by a matrix")


@sub(
    "P01",
    "crowd",
    st.tuples(st.sampled_from([2, 3, 3]), st.integers(5, 90)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "dim": st.just(t[0]),
                "n": st.just(t[1]),
                "axes": st.lists(axes_of(t[0]), min_size=4, max_size=4),
                "a": flat(5, nums()),
                "drop": st.sets(st.integers(0, t[1] - 1), max_size=t[1] // 2).map(sorted),
                "move": st.sets(st.integers(0, t[1] - 1), max_size=t[1] // 2).map(sorted),
                "s": nznums(0.25, 3),
                "gc": st.booleans(),
                "kinds": st.integers(0, 4),
            }
        )
    ),
    "more than 20 tensors share a frame",
    nontrivial=lambda c: c["n"] > 20,
    quick=80,
)
def crowd(case):
    """Many tensors of one frame. Some of them die or move to another one."""
    d, n = case["dim"], case["n"]
    A, B, C, D = (arr(x) for x in case["axes"])
    F, G = FRAMES["R"](A.copy()), FRAMES["R"](B.copy())
    names = (["Vector", "Tensor2", "GTensor2", "Tensor1", "Tensor3"] * 2)[case["kinds"] :][:5]
    X = spread(case["a"], (n, 27))
    ts, ambs, ranks = [], [], []
    for i in range(n):
        cls = names[i % len(names)]
        r = CLASSES[cls][1]
        x = X[i, : d**r].reshape((d,) * r)
        ts.append(build(cls, x, F, False))
        ambs.append(to_ambient(x, A, r))
        ranks.append(r)
    frames = [F] * n

    def check(what):
        for i, t in enumerate(ts):
            if t is None:
                continue
            ax = plain(frames[i].axes)
            m = 1 + np.abs(ambs[i]).max()
            close(t.show(), ambs[i], f"{what}: ambient components of tensor {i} of {n}", scale=m, rtol=1e-8)
            ref = from_ambient(ambs[i], ax, ranks[i])
            close(t.array, ref, f"{what}: components of tensor {i} of {n}", scale=m + np.abs(ref).max(), rtol=1e-8)

    F *= case["s"]
    check("scaled")
    for i in case["drop"]:
        ts[i] = None
    t = None
    if case["gc"]:
        gc.collect()
    F.axes = C.copy()
    check("after some of them were deleted")
    for i in case["move"]:
        if ts[i] is not None:
            ts[i].frame = G
            frames[i] = G
    F @= D
    check("after some of them have moved")
    G.axes = C.copy()
    F.axes = A.copy()
    check("both frames have changed")
    for i in case["move"]:
        if ts[i] is not None:
            ts[i].frame = F
            frames[i] = F
    G *= 2
    F *= case["s"]
    check("after they moved back")
