"""
An interpreter of histories of operations on frames and tensors, against a model that
knows the invariant (ambient) components of every tensor and the axes of every frame.
"""

import copy

import numpy as np

from sigmaepsilon.math.linalg import (
    CartesianFrame,
    RectangularFrame,
    ReferenceFrame,
    Tensor,
    Tensor2,
    Tensor2x3,
    Tensor4,
    Tensor4x3,
    Vector,
)

from .core import (
    axes_of,
    close,
    euler,
    flat,
    from_ambient,
    nums,
    nznums,
    ok,
    plain,
    spread,
    st,
    to_ambient,
)

FRAMES = {"R": ReferenceFrame, "O": RectangularFrame, "C": CartesianFrame}
CLASSES = {
    "Vector": (Vector, 1),
    "Tensor1": (Tensor, 1),
    "Tensor2": (Tensor2, 2),
    "GTensor2": (Tensor, 2),
    "Tensor3": (Tensor, 3),
    "Tensor4": (Tensor4, 4),
    "GTensor4": (Tensor, 4),
    "Tensor2x3": (Tensor2x3, 2),
    "Tensor4x3": (Tensor4x3, 4),
    "Tensor5": (Tensor, 5),
    "Tensor6": (Tensor, 6),
}

ORDERS = ["XYZ", "ZXZ", "XYX", "ZYX", "YZX", "321", "313", "YXZ", "ZXY"]


class MF:
    """A frame and its model."""

    def __init__(self, real, axes):
        self.real = real
        self.axes = np.array(axes, dtype=float)


class MT:
    """A tensor and its model: ambient components and the frame it is attached to."""

    def __init__(self, real, amb, rank, fr):
        self.real = real
        self.amb = np.array(amb, dtype=float)
        self.rank = rank
        self.fr = fr


def fine(A):
    """Is this a frame where inversion is numerically harmless?"""
    A = np.array(A, dtype=float)
    if not np.all(np.isfinite(A)):
        return False
    for a in A if A.ndim == 3 else [A]:
        s = np.linalg.svd(a, compute_uv=False)
        if s[-1] < 0.04 or s[0] > 40 or s[0] / s[-1] > 300:
            return False
    return True


def build(cls, comps, frame, bulk):
    klass, _ = CLASSES[cls]
    a = np.array(comps, dtype=float)
    if klass in (Tensor2x3, Tensor4x3, Vector):
        return klass(a, frame=frame)
    if bulk:
        return klass(a, frame=frame, bulk=True)
    return klass(a, frame=frame)


class Lab:
    def __init__(self, case):
        self.dim = case["dim"]
        self.frames = []
        self.tensors = []
        self.done = 0
        self.rel, self.mag = {}, {}
        for kind, axes in case["frames"]:
            A = np.array(axes, dtype=float)
            self.frames.append(MF(FRAMES[kind](A.copy()), A))
        for t in case["tensors"]:
            self.new(*t)

    # -- the model of frames
    def fr(self, i):
        return self.frames[i % len(self.frames)]

    def te(self, i):
        return self.tensors[i % len(self.tensors)]

    def new(self, cls, fi, comps):
        f = self.fr(fi)
        klass, rank = CLASSES[cls]
        a = np.array(comps, dtype=float)
        bulk = a.ndim > rank
        t = build(cls, a, f.real, bulk)
        self.tensors.append(MT(t, to_ambient(a, f.axes, rank), rank, f))

    # -- operations
    def step(self, op):
        name, args = op[0], op[1:]
        if name not in ("new", "set", "imul", "idiv", "iadd_to", "isub_to", "imatmul", "ipow",
                        "orient", "ufunc", "transpose_frame", "iadd_scalar", "set_same", "nudge") and not self.tensors:
            return
        self.done += bool(getattr(self, "op_" + name)(*args))

    def frame_result(self, f, real, axes):
        f.real = real
        f.axes = np.array(axes, dtype=float)
        return True

    def op_new(self, cls, fi, comps):
        if len(self.tensors) < 8:
            self.new(cls, fi, comps)
            return True

    def op_drop(self, ti):
        if len(self.tensors) > 1:
            self.tensors.pop(ti % len(self.tensors))
            return True

    def op_set(self, fi, axes, mode):
        f = self.fr(fi)
        A = np.array(axes, dtype=float)
        if A.shape != f.axes.shape:
            return
        if type(f.real) is RectangularFrame:
            A = np.diag([1.0 + 0.5 * i for i in range(self.dim)]) @ np.linalg.qr(A)[0]
        elif type(f.real) is CartesianFrame:
            A = np.linalg.qr(A)[0]
        src = A.copy()
        if mode == "F":
            src = np.asfortranarray(src)
        elif mode == "list":
            src = src.tolist()
        elif mode == "view":
            src = np.ascontiguousarray(src.T).T
        f.real.axes = src
        if mode in ("C", "F", "view"):
            # the frame must not depend on the array it was set from
            src[...] = 77.0
        return self.frame_result(f, f.real, A)

    def op_imul(self, fi, s):
        f = self.fr(fi)
        A = f.axes * s
        if not fine(A):
            return
        r = f.real
        r *= s
        return self.frame_result(f, r, A)

    def op_idiv(self, fi, s):
        f = self.fr(fi)
        A = f.axes / s
        if not fine(A):
            return
        r = f.real
        r /= s
        return self.frame_result(f, r, A)

    def op_iadd_to(self, fi, axes):
        f = self.fr(fi)
        A = np.array(axes, dtype=float)
        if A.shape != f.axes.shape:
            return
        d = A - f.axes
        r = f.real
        r += d
        return self.frame_result(f, r, f.axes + d)

    def op_isub_to(self, fi, axes):
        f = self.fr(fi)
        A = np.array(axes, dtype=float)
        if A.shape != f.axes.shape:
            return
        d = f.axes - A
        r = f.real
        r -= d
        return self.frame_result(f, r, f.axes - d)

    def op_iadd_scalar(self, fi, s):
        f = self.fr(fi)
        A = f.axes + s
        if not fine(A):
            return
        r = f.real
        r += s
        return self.frame_result(f, r, A)

    def op_imatmul(self, fi, M):
        f = self.fr(fi)
        M = np.array(M, dtype=float)
        A = f.axes @ M
        if not fine(A):
            return
        r = f.real
        r @= M
        return self.frame_result(f, r, A)

    def op_ipow(self, fi, p):
        f = self.fr(fi)
        A = np.power(f.axes, p)
        if not fine(A):
            return
        r = f.real
        r **= p
        return self.frame_result(f, r, A)

    def op_ufunc(self, fi, which, s):
        f = self.fr(fi)
        if type(f.real) is not ReferenceFrame:
            return
        if which == "multiply":
            A = f.axes * s
            args = (f.real, s)
        elif which == "add":
            A = f.axes + s
            args = (f.real, s)
        elif which == "negative":
            A = -f.axes
            args = (f.real,)
        elif which == "absolute":
            A = np.abs(f.axes)
            args = (f.real,)
        elif which == "subtract":
            A = s - f.axes
            args = (s, f.real)
        elif which == "square":
            A = f.axes**2
            args = (f.real,)
        if not fine(A):
            return
        getattr(np, which)(*args, out=f.real)
        return self.frame_result(f, f.real, A)

    def op_binary_out(self, fi, fj, fk, which):
        """A universal function of two frames with a frame as the output."""
        f, g, h = self.fr(fi), self.fr(fj), self.fr(fk)
        if type(f.real) is not ReferenceFrame or not f.axes.shape == g.axes.shape == h.axes.shape:
            return
        A = getattr(np, which)(g.axes, h.axes)
        if not fine(A):
            return
        getattr(np, which)(g.real, h.real, out=f.real)
        return self.frame_result(f, f.real, A)

    def op_setitem(self, fi, i, j, what, value):
        """Items of a frame."""
        f = self.fr(fi)
        if type(f.real) is not ReferenceFrame:
            return
        n = self.dim
        key = {
            "item": (Ellipsis, i % n, j % n),
            "row": (Ellipsis, i % n, slice(None)),
            "column": (Ellipsis, slice(None), j % n),
            "all": slice(None),
        }[what]
        A = f.axes.copy()
        new = A[key] + value * np.arange(1, n + 1)[: 1 if what == "item" else n]
        A[key] = new[0] if what == "item" and A.ndim == 2 else new
        if not fine(A):
            return
        f.real[key] = A[key]
        return self.frame_result(f, f.real, A)

    def op_chop(self, fi, tol):
        f = self.fr(fi)
        if type(f.real) is not ReferenceFrame:
            return
        if np.any(np.abs(np.abs(f.axes) - tol) < 1e-6):
            return
        A = np.where(np.abs(f.axes) < tol, 0.0, f.axes)
        if not fine(A):
            return
        r = f.real.chop(tol)
        ok(r is f.real, "chop returned another object")
        return self.frame_result(f, f.real, A)

    def op_transpose_frame(self, fi):
        f = self.fr(fi)
        if type(f.real) is RectangularFrame:
            return
        A = np.swapaxes(f.axes, -1, -2)
        if not fine(A):
            return
        f.real.transpose(inplace=True)
        return self.frame_result(f, f.real, A)

    def op_orient(self, fi, kind, angles, order, rotate):
        if self.dim != 3:
            return
        f = self.fr(fi)
        R = euler(kind, angles, order)
        A = f.axes @ R.T
        if rotate:
            f.real.rotate(kind, angles, order)
        else:
            f.real.orient(kind, angles, order)
        return self.frame_result(f, f.real, A)

    # -- operations on tensors
    def op_attach(self, ti, fi):
        t, f = self.te(ti), self.fr(fi)
        if f.axes.ndim == 3 and t.amb.ndim <= t.rank:
            return
        t.real.frame = f.real
        t.fr = f
        return True

    def op_attach_axes(self, ti, axes):
        t = self.te(ti)
        A = np.array(axes, dtype=float)
        t.real.frame = A.copy()
        f = MF(t.real.frame, A)
        t.fr = f
        if len(self.frames) < 5:
            self.frames.append(f)
        return True

    def op_twin(self, ti, how):
        """Attach to another frame that coincides with the one it has."""
        t = self.te(ti)
        if how == "axes":
            t.real.frame = t.fr.axes.copy()
            f = MF(t.real.frame, t.fr.axes)
        else:
            f = MF(type(t.fr.real)(t.fr.axes.copy()), t.fr.axes)
            t.real.frame = f.real
        if t.fr not in self.frames and len(self.frames) < 6:
            self.frames.append(t.fr)
        if len(self.frames) < 7:
            self.frames.append(f)
        t.fr = f
        return True

    def op_reattach(self, ti):
        t = self.te(ti)
        t.real.frame = t.real.frame
        return True

    def op_visit(self, ti, fi):
        """Attach to another frame and then back."""
        t, f = self.te(ti), self.fr(fi)
        if f.axes.ndim == 3 and t.amb.ndim <= t.rank:
            return
        t.real.frame = f.real
        t.real.frame = t.fr.real
        return True

    def op_set_same(self, fi, fj):
        """The axes of another frame."""
        f, g = self.fr(fi), self.fr(fj)
        if f.axes.shape != g.axes.shape or type(f.real) is not type(g.real):
            return
        f.real.axes = g.real.axes
        return self.frame_result(f, f.real, g.axes)

    def op_nudge(self, fi, k, how):
        """A change that is small, but not zero."""
        f = self.fr(fi)
        A = f.axes * (1 + 1e-6 * k)
        r = f.real
        if type(r) is CartesianFrame or how == "set" and type(r) is not ReferenceFrame:
            return
        if how == "set":
            A = A + 1e-6 * np.arange(A.size).reshape(A.shape)
            r.axes = A.copy()
        else:
            r *= 1 + 1e-6 * k
        return self.frame_result(f, r, A)

    def op_timul(self, ti, s):
        t = self.te(ti)
        if np.max(np.abs(t.amb)) * abs(s) > 1e4 or abs(s) < 0.05:
            return
        r = t.real
        r *= s
        t.real, t.amb = r, t.amb * s
        return True

    def op_tidiv(self, ti, s):
        t = self.te(ti)
        if np.max(np.abs(t.amb)) / abs(s) > 1e4:
            return
        r = t.real
        r /= s
        t.real, t.amb = r, t.amb / s
        return True

    def other(self, t, k):
        peers = [
            u
            for u in self.tensors
            if type(u.real) is type(t.real) and u.rank == t.rank and u.amb.shape == t.amb.shape
        ]
        return peers[k % len(peers)]

    def big(self, *ts):
        return max(np.max(np.abs(t.amb)) for t in ts) > 1e3

    def op_tiadd(self, ti, k):
        t = self.te(ti)
        u = self.other(t, k)
        if self.big(t, u):
            return
        amb = t.amb + u.amb
        r = t.real
        r += u.real
        t.real, t.amb = r, amb
        return True

    def op_tisub(self, ti, k):
        t = self.te(ti)
        u = self.other(t, k)
        if self.big(t, u):
            return
        amb = t.amb - u.amb
        r = t.real
        r -= u.real
        t.real, t.amb = r, amb
        return True

    def keep(self, real, amb, rank):
        """A new tensor, result of an operation; its frame is up to the implementation."""
        self.measure()
        close(
            real.show(),
            amb,
            "ambient components of the result of an operation",
            atol=1e-9 + self.rel[rank] * self.mag.get(rank, 1.0),
        )
        ok(real.rank == rank, f"rank {real.rank} instead of {rank}")
        # the result may share its frame with another tensor, or have its own
        for f in self.frames + [t.fr for t in self.tensors]:
            if real.frame is f.real:
                break
        else:
            f = MF(real.frame, plain(real.frame.axes))
            if len(self.frames) < 6:
                self.frames.append(f)
        m = MT(real, amb, rank, f)
        if len(self.tensors) < 8:
            self.tensors.append(m)
        return True

    def op_binary(self, ti, k, which):
        t = self.te(ti)
        u = self.other(t, k)
        if self.big(t, u):
            return
        if which == "add":
            return self.keep(t.real + u.real, t.amb + u.amb, t.rank)
        return self.keep(t.real - u.real, t.amb - u.amb, t.rank)

    def op_scale(self, ti, s, which):
        t = self.te(ti)
        if self.big(t):
            return
        if which == "mul":
            return self.keep(t.real * s, t.amb * s, t.rank)
        return self.keep(t.real / s, t.amb / s, t.rank)

    def op_neg(self, ti):
        t = self.te(ti)
        return self.keep(-t.real, -t.amb, t.rank)

    def op_dual(self, ti):
        t = self.te(ti)
        return self.keep(t.real.dual(), t.amb, t.rank)

    def op_T(self, ti):
        t = self.te(ti)
        nd = t.amb.ndim
        lead = list(range(nd - t.rank))
        amb = np.transpose(t.amb, lead + list(range(nd - t.rank, nd))[::-1])
        return self.keep(t.real.T, amb, t.rank)

    def op_copy(self, ti, how):
        t = self.te(ti)
        if how == "copy":
            c = t.real.copy()
        elif how == "deepcopy":
            c = t.real.deepcopy()
        elif how == "copy_deep":
            c = t.real.copy(deep=True)
        elif how == "copy.copy":
            c = copy.copy(t.real)
        else:
            c = copy.deepcopy(t.real)
        ok(type(c) is type(t.real), f"the copy is a {type(c)}, the original a {type(t.real)}")
        ok(c is not t.real, "the copy is the original")
        ok(bool(c.is_bulk()) == bool(t.real.is_bulk()), "the bulk flag of the copy differs")
        close(c.array, t.real.array, "components of the copy", rtol=1e-12, atol=1e-12)
        close(c.frame.axes, t.fr.axes, "axes of the frame of the copy")
        ok(
            not np.shares_memory(np.asarray(c.array), np.asarray(t.real.array)),
            "the copy shares memory with the original",
        )
        deep = how in ("deepcopy", "copy_deep", "copy.deepcopy")
        if deep:
            ok(c.frame is not t.real.frame, "the frame of a deep copy is shared")
            ok(
                not np.shares_memory(np.asarray(c.frame.axes), np.asarray(t.real.frame.axes)),
                "the axes of the frame of a deep copy are shared",
            )
        return self.keep(c, t.amb, t.rank)

    def op_copy_frame(self, fi, how):
        f = self.fr(fi)
        if how == "copy":
            c = f.real.copy()
        elif how == "deepcopy":
            c = f.real.deepcopy()
        elif how == "orient_new":
            c = f.real.orient_new()
        elif how == "class":
            c = type(f.real)(f.real.axes)
        elif how == "copy.copy":
            c = copy.copy(f.real)
        elif how == "copy.deepcopy":
            c = copy.deepcopy(f.real)
        else:
            c = f.real.copy(deep=True)
        ok(type(c) is type(f.real), f"the copy is a {type(c)}, the original a {type(f.real)}")
        ok(c is not f.real, "the copy is the original")
        close(c.axes, f.axes, "axes of the copy")
        if len(self.frames) < 6:
            self.frames.append(MF(c, f.axes))
        return True

    def op_setcomps(self, ti, k, value):
        t = self.te(ti)
        a = from_ambient(t.amb, t.fr.axes, t.rank)
        i = k % a.size
        a.reshape(-1)[i] = value
        if k % 2:
            t.real.array = a.copy()
        else:
            t.real[np.unravel_index(i, a.shape)] = value
        t.amb = to_ambient(a, t.fr.axes, t.rank)
        return True

    # -- what must hold after every operation
    def measure(self):
        """
        Bounds of the rounding errors of a change of basis, by rank: the components in a frame
        of condition number c are determined by the ambient ones up to c**rank units, and a
        transformation matrix has an error of c units itself.
        """
        spans = {}
        for f in self.frames + [t.fr for t in self.tensors]:
            sv = np.linalg.svd(f.axes, compute_uv=False)
            spans[id(f)] = float(np.max(sv[..., 0] / sv[..., -1])), float(np.min(sv[..., -1]))
        worst = max(c for c, _ in spans.values())
        for r in range(1, 7):
            self.rel[r] = self.rel.get(r, 0.0) + 2e-15 * r * worst ** (r + 1)
        for t in self.tensors:
            self.mag[t.rank] = max(self.mag.get(t.rank, 1.0), float(np.max(np.abs(t.amb))))
        return spans

    def verify(self, where=""):
        spans = self.measure()
        for i, f in enumerate(self.frames):
            close(f.real.axes, f.axes, f"{where}: axes of frame {i}")
        for i, t in enumerate(self.tensors):
            w = f"{where}: tensor {i} ({type(t.real).__name__}, rank {t.rank})"
            amb = t.real.show()
            err = self.rel[t.rank] * self.mag[t.rank]

            def same(a, e, what, f=None):
                m = max(1.0, float(np.max(np.abs(e))))
                extra = err if f is None else err * max(1.0, spans[id(f)][1] ** -t.rank)
                close(a, e, f"{w}: {what}", scale=m, rtol=1e-8, atol=1e-9 + extra)

            same(amb, t.amb, "ambient components")
            close(t.real.frame.axes, t.fr.axes, f"{w}: axes of its frame")
            ref = from_ambient(t.amb, t.fr.axes, t.rank)
            same(t.real.array, ref, "components", t.fr)
            same(plain(t.real), ref, "array view", t.fr)
            same(t.real.tolist(), ref, "tolist", t.fr)
            same(t.real.max(), ref.max(), "max", t.fr)
            # components in the frames of the others
            for k, f in enumerate(self.frames[:3]):
                if f.axes.ndim == 3 and t.amb.ndim <= t.rank:
                    continue
                same(t.real.show(f.real), from_ambient(t.amb, f.axes, t.rank), f"components in frame {k}", f)
        for i, f in enumerate(self.frames):
            close(f.real.tolist(), f.axes, f"{where}: list of axes of frame {i}")
            close(f.real.max(), f.axes.max(), f"{where}: max of frame {i}")


# ----------------------------------------------------------------------- strategies

ANG = st.integers(-24, 24).map(lambda i: i * 0.2617993877991494)  # multiples of 15 degrees


def comps_of(cls, dim, bulk):
    rank = CLASSES[cls][1]
    shape = (bulk,) * (bulk > 0) + (dim,) * rank
    n = int(np.prod(shape))
    return flat(n, nums(-4, 4)).map(lambda x: np.array(x).reshape(shape).tolist())


def tensor_specs(dim, bulk_ok=True, heavy=True):
    names = ["Vector", "Tensor2", "GTensor2", "Vector", "Tensor1"]
    if dim <= 3:
        names += ["Tensor3"]
    if heavy and dim <= 2:
        names += ["Tensor4", "GTensor4"]
    if heavy and dim == 2:
        names += ["Tensor5"]
    if dim == 3:
        names += ["Tensor2x3"]
        if heavy:
            names += ["Tensor4x3"]
    opts = []
    for n in names:
        # 81 numbers are drawn as a few: large components are expensive to generate
        if n in ("Tensor4x3",):
            opts.append(
                st.tuples(st.just(n), st.integers(0, 3), flat(9, nums(-4, 4)).map(_spread4))
            )
        elif n == "Tensor5":
            opts.append(
                st.tuples(st.just(n), st.integers(0, 3), flat(7, nums(-4, 4)).map(lambda x: spread(x, (2,) * 5).tolist()))
            )
        else:
            opts.append(st.tuples(st.just(n), st.integers(0, 3), comps_of(n, dim, 0)))
    if bulk_ok:
        for n in ["Vector", "Tensor2"] + (["Tensor2x3"] if dim == 3 else []):
            opts.append(
                st.integers(1, 3).flatmap(
                    lambda b, n=n: st.tuples(st.just(n), st.integers(0, 3), comps_of(n, dim, b))
                )
            )
    return st.one_of(opts).map(list)


def _spread4(x):
    a = np.array(x)
    i = np.arange(81)
    return (a[i % 9] * ((i * 7) % 5 - 2) + a[(i // 9) % 9] * ((i * 3) % 4 - 1)).reshape(3, 3, 3, 3).tolist()


def frame_ops(dim):
    fi = st.integers(0, 5)
    ops = [
        st.tuples(st.just("set"), fi, axes_of(dim), st.sampled_from(["C", "F", "view", "list"])),
        st.tuples(st.just("imul"), fi, nznums(0.25, 3)),
        st.tuples(st.just("idiv"), fi, nznums(0.25, 3)),
        st.tuples(st.just("iadd_to"), fi, axes_of(dim, ("skew",))),
        st.tuples(st.just("isub_to"), fi, axes_of(dim, ("skew",))),
        st.tuples(st.just("iadd_scalar"), fi, nznums(0.25, 2)),
        st.tuples(st.just("imatmul"), fi, axes_of(dim)),
        st.tuples(st.just("ipow"), fi, st.sampled_from([1, 2, 3])),
        st.tuples(
            st.just("ufunc"),
            fi,
            st.sampled_from(["multiply", "add", "negative", "subtract", "absolute", "square"]),
            nznums(0.25, 2),
        ),
        st.tuples(st.just("transpose_frame"), fi),
        st.tuples(
            st.just("binary_out"), fi, fi, fi, st.sampled_from(["add", "subtract", "matmul"])
        ),
        st.tuples(
            st.just("setitem"),
            fi,
            st.integers(0, 3),
            st.integers(0, 3),
            st.sampled_from(["item", "row", "column", "all"]),
            nznums(0.25, 2),
        ),
        st.tuples(st.just("chop"), fi, st.sampled_from([0.3, 0.6, 0.1])),
        st.tuples(st.just("set_same"), fi, fi),
        st.tuples(st.just("nudge"), fi, st.integers(1, 9), st.sampled_from(["set", "imul"])),
    ]
    if dim == 3:
        ops.append(
            st.tuples(
                st.just("orient"),
                fi,
                st.sampled_from(["Body", "Space"]),
                st.lists(ANG, min_size=3, max_size=3),
                st.sampled_from(ORDERS),
                st.booleans(),
            )
        )
    return ops


def tensor_ops(dim):
    ti = st.integers(0, 7)
    return [
        st.tuples(st.just("attach"), ti, st.integers(0, 5)),
        st.tuples(st.just("attach_axes"), ti, axes_of(dim)),
        st.tuples(st.just("twin"), ti, st.sampled_from(["axes", "frame"])),
        st.tuples(st.just("reattach"), ti),
        st.tuples(st.just("visit"), ti, st.integers(0, 5)),
        st.tuples(st.just("drop"), ti),
        tensor_specs(dim, heavy=False).map(lambda t: ["new"] + t),
    ]


def arith_ops(dim):
    ti = st.integers(0, 7)
    return [
        st.tuples(st.just("timul"), ti, nznums(0.25, 3)),
        st.tuples(st.just("tidiv"), ti, nznums(0.25, 3)),
        st.tuples(st.just("tiadd"), ti, ti),
        st.tuples(st.just("tisub"), ti, ti),
        st.tuples(st.just("binary"), ti, ti, st.sampled_from(["add", "sub"])),
        st.tuples(st.just("scale"), ti, nznums(0.25, 3), st.sampled_from(["mul", "div"])),
        st.tuples(st.just("neg"), ti),
        st.tuples(st.just("dual"), ti),
        st.tuples(st.just("T"), ti),
    ]


def copy_ops(dim):
    ti = st.integers(0, 7)
    hows = ["copy", "deepcopy", "copy_deep", "copy.copy", "copy.deepcopy"]
    return [
        st.tuples(st.just("copy"), ti, st.sampled_from(hows)),
        st.tuples(
            st.just("copy_frame"),
            st.integers(0, 5),
            st.sampled_from(["copy", "deepcopy", "copy_deep", "orient_new", "class", "copy.copy", "copy.deepcopy"]),
        ),
        st.tuples(st.just("setcomps"), ti, st.integers(0, 99), nums(-4, 4)),
    ]


def frame_specs(dim, general=False):
    opts = [st.tuples(st.just("R"), axes_of(dim))]
    if not general:
        opts += [
            st.tuples(st.just("O"), axes_of(dim, ("rectangular", "orthonormal", "eye"))),
            st.tuples(st.just("C"), axes_of(dim, ("orthonormal", "reflected", "eye"))),
        ]
    return st.one_of(opts).map(list)


@st.composite
def collection_pairs(draw, dims=(2, 3, 3), cross=False):
    """Two operands, at least one of them being a collection, with one frame or one for each item."""
    d = draw(st.sampled_from(list(dims)))
    n = draw(st.sampled_from([1, 2, d, d, 4, 5]))
    kinds = [(a, b) for a in ("v", "vb", "T", "Tb") for b in ("v", "vb", "T", "Tb")]
    kinds = [k for k in kinds if "b" in k[0] + k[1] and not (cross and k[0][0] == k[1][0] == "T")]
    ka, kb = draw(st.sampled_from(kinds))

    def frame(k, other):
        # a single tensor or vector is not shown in a collection of frames (it is refused)
        if "b" in k and other != "T" and (k, other) != ("Tb", "v") and draw(st.integers(0, 2)) == 0:
            return ["R", draw(st.lists(axes_of(d, ("skew", "rectangular", "reflected")), min_size=n, max_size=n))]
        return draw(frame_specs(d))

    case = {"dim": d, "n": n, "what": [ka, kb], "f": frame(ka, kb), "g": frame(kb, "")}
    case["h"] = draw(st.none() | frame_specs(d))
    case["a"], case["b"] = draw(flat(6, nums())), draw(flat(6, nums()))
    case["x3"] = d == 3 and draw(st.booleans())
    case["items"] = [draw(st.lists(flat(d * d, nums()), min_size=2, max_size=2)) for _ in range(2)]
    return case


def collection_operands(case):
    """The operands, their ambient components by item, and the ambient components themselves."""
    d, n = case["dim"], case["n"]
    out = []
    for k, f, c, it in zip(case["what"], (case["f"], case["g"]), (case["a"], case["b"]), case["items"]):
        r = 1 if k[0] == "v" else 2
        X = spread(c, ((n,) if "b" in k else ()) + (d,) * r)
        for j, y in enumerate(it):
            if "b" in k and j < n:
                X[-1 - j] = np.array(y[: d**r]).reshape((d,) * r)
        A = np.array(f[1], dtype=float)
        F = FRAMES[f[0]](A.copy())
        if r == 1:
            t = Vector(X.copy(), frame=F)
        elif case["x3"]:
            t = Tensor2x3(X.copy(), frame=F)
        else:
            t = Tensor2(X.copy(), frame=F, bulk=True) if "b" in k else Tensor2(X.copy(), frame=F)
        x = to_ambient(X, A, r)
        out.append((t, X, F, A, x, list(x) if "b" in k else [x] * n))
    return out


def histories(opsets, dims=(1, 2, 3, 3, 3, 4), min_ops=3, max_ops=10):
    def mk(dim):
        ops = []
        for o in opsets:
            ops += o(dim)
        return st.fixed_dictionaries(
            {
                "dim": st.just(dim),
                "frames": st.lists(frame_specs(dim), min_size=1, max_size=3),
                "tensors": st.lists(tensor_specs(dim), min_size=1, max_size=4),
                "ops": st.lists(st.one_of(ops).map(list), min_size=min_ops, max_size=max_ops),
                "look": LOOK,
            }
        )

    return st.sampled_from(list(dims)).flatmap(mk)


# look at everything after each operation, after some of them, or at the end only
LOOK = st.sampled_from(["each", "each", "some", "end"])


def run_history(case):
    lab = Lab(case)
    look = case.get("look", "each")
    n = len(case["ops"])
    if look != "end":
        lab.verify("at start")
    for i, op in enumerate(case["ops"]):
        lab.step(op)
        if look == "each" or i == n - 1 or (look == "some" and i % 3 == 1):
            lab.verify(f"after operation {i} ({op[0]})")
        else:
            lab.measure()


def coinciding(max_ops=9):
    """Histories where tensors move between frames that coincide and then change."""

    def mk(dim):
        fi, ti = st.integers(0, 5), st.integers(0, 3)
        ops = [
            st.tuples(st.just("twin"), ti, st.sampled_from(["axes", "frame"])),
            st.tuples(st.just("twin"), ti, st.sampled_from(["axes", "frame"])),
            st.tuples(st.just("set_same"), fi, fi),
            st.tuples(st.just("attach"), ti, fi),
            st.tuples(st.just("attach"), ti, fi),
            st.tuples(st.just("reattach"), ti),
            st.tuples(st.just("visit"), ti, fi),
            st.tuples(st.just("imul"), fi, nznums(0.25, 3)),
            st.tuples(st.just("imul"), fi, nznums(0.25, 3)),
            st.tuples(st.just("imatmul"), fi, axes_of(dim)),
            st.tuples(st.just("set"), fi, axes_of(dim), st.just("C")),
            st.tuples(st.just("nudge"), fi, st.integers(1, 9), st.sampled_from(["set", "imul"])),
            st.tuples(st.just("copy_frame"), fi, st.sampled_from(["copy", "deepcopy", "class"])),
            st.tuples(st.just("copy"), ti, st.sampled_from(["copy", "deepcopy"])),
        ]
        return st.fixed_dictionaries(
            {
                "dim": st.just(dim),
                "frames": st.lists(frame_specs(dim), min_size=1, max_size=2).map(lambda x: x + x[:1]),
                "tensors": st.lists(tensor_specs(dim, heavy=False), min_size=1, max_size=2),
                "ops": st.lists(st.one_of(ops).map(list), min_size=2, max_size=max_ops),
                "look": LOOK,
            }
        )

    return st.sampled_from([1, 2, 3, 3]).flatmap(mk)


def stack_histories(max_ops=8):
    """Collections with a separate frame for each item."""

    def mk(t):
        dim, n = t
        stack = st.lists(axes_of(dim), min_size=n, max_size=n)
        fi = st.integers(0, 3)
        ti = st.integers(0, 7)
        names = ["Vector", "Tensor2"] + (["Tensor2x3"] if dim == 3 else [])
        spec = st.one_of(
            [st.tuples(st.just(k), fi, comps_of(k, dim, n)) for k in names]
            + ([st.tuples(st.just("Tensor4"), fi, comps_of("Tensor4", dim, n))] if dim == 2 else [])
        ).map(list)
        ops = [
            st.tuples(st.just("set"), fi, stack, st.sampled_from(["C", "F", "list"])),
            st.tuples(st.just("imul"), fi, nznums(0.25, 3)),
            st.tuples(st.just("idiv"), fi, nznums(0.25, 3)),
            st.tuples(st.just("iadd_to"), fi, stack),
            st.tuples(st.just("isub_to"), fi, stack),
            st.tuples(st.just("imatmul"), fi, axes_of(dim)),
            st.tuples(st.just("ufunc"), fi, st.sampled_from(["multiply", "negative"]), nznums(0.25, 2)),
            st.tuples(st.just("transpose_frame"), fi),
        st.tuples(
            st.just("binary_out"), fi, fi, fi, st.sampled_from(["add", "subtract", "matmul"])
        ),
        st.tuples(
            st.just("setitem"),
            fi,
            st.integers(0, 3),
            st.integers(0, 3),
            st.sampled_from(["item", "row", "column", "all"]),
            nznums(0.25, 2),
        ),
        st.tuples(st.just("chop"), fi, st.sampled_from([0.3, 0.6, 0.1])),
            st.tuples(st.just("attach"), ti, fi),
            st.tuples(st.just("twin"), ti, st.sampled_from(["axes", "frame"])),
            st.tuples(st.just("visit"), ti, fi),
            st.tuples(st.just("set_same"), fi, fi),
            st.tuples(st.just("nudge"), fi, st.integers(1, 9), st.sampled_from(["set", "imul"])),
            st.tuples(st.just("copy"), ti, st.sampled_from(["copy", "deepcopy"])),
            st.tuples(st.just("timul"), ti, nznums(0.25, 3)),
            st.tuples(st.just("tiadd"), ti, ti),
            st.tuples(st.just("binary"), ti, ti, st.sampled_from(["add", "sub"])),
            st.tuples(st.just("neg"), ti),
            st.tuples(st.just("dual"), ti),
            spec.map(lambda t: ["new"] + t),
        ]
        if dim == 3:
            ops.append(
                st.tuples(
                    st.just("orient"),
                    fi,
                    st.sampled_from(["Body", "Space"]),
                    st.lists(ANG, min_size=3, max_size=3),
                    st.sampled_from(ORDERS),
                    st.booleans(),
                )
            )
        return st.fixed_dictionaries(
            {
                "dim": st.just(dim),
                "frames": st.lists(
                    st.tuples(st.just("R"), st.one_of(stack, stack, axes_of(dim))).map(list),
                    min_size=1,
                    max_size=3,
                ),
                "tensors": st.lists(spec, min_size=1, max_size=3),
                "ops": st.lists(st.one_of(ops).map(list), min_size=2, max_size=max_ops),
                "look": LOOK,
            }
        )

    return st.tuples(st.sampled_from([2, 3, 3]), st.integers(1, 4)).flatmap(mk)


# ------------------------------------------------------------------------- other units


@st.composite
def units(draw, dims=(1, 2, 3, 3), classes=("Vector", "Tensor1", "Tensor2", "GTensor2", "Tensor3", "Tensor2x3", "VectorBulk", "Tensor2Bulk")):
    """Frames and components of very different magnitudes, as if given in other units."""
    dim = draw(st.sampled_from(list(dims)))
    k = st.integers(-7, 7) | st.sampled_from([-12, -10, -9, 9, 12])
    return {
        "dim": dim,
        "f": draw(axes_of(dim)),
        "g": draw(axes_of(dim)),
        "e": draw(st.sampled_from([0, 0, 0, 4, 5, 6, 7])),
        "fk": draw(k),
        "gk": draw(k),
        "hk": draw(k),
        "xk": draw(k),
        "yk": draw(k),
        "cls": draw(st.sampled_from([c for c in classes if dim == 3 or "x3" not in c])),
        "a": draw(flat(5, nums())),
        "b": draw(flat(5, nums())),
        "s": draw(nznums(0.25, 3)),
    }


def neighbour(axes, e):
    """A frame that is close to another one, but is not the same."""
    A = np.array(axes, dtype=float)
    return A * (1 + 3.0 * 10.0**-e) + 10.0**-e * np.arange(A.size).reshape(A.shape)[::-1]


def two_frames(case):
    """The axes of two frames and their magnitudes; the frames may be next to each other."""
    f, g = np.array(case["f"], dtype=float), np.array(case["g"], dtype=float)
    if case["e"]:
        return f, case["fk"], neighbour(f, case["e"]), case["fk"]
    return f, case["fk"], g, case["gk"]


def unit_operands(case):
    from .core import spread

    cls = case["cls"].replace("Bulk", "")
    bulk = cls != case["cls"]
    rank = CLASSES[cls][1]
    shape = (3,) * bulk + (case["dim"],) * rank
    f, fk, g, gk = two_frames(case)
    A, B = f * 10.0**fk, g * 10.0**gk
    X, Y = (spread(case[x], shape) * 10.0 ** case[k] for x, k in (("a", "xk"), ("b", "yk")))
    return cls, bulk, rank, A, B, X, Y


def near(actual, expected, what, scale=None, rtol=1e-8):
    """Relative to the largest component, without any absolute tolerance."""
    m = float(np.max(np.abs(expected))) if scale is None else float(np.max(np.abs(scale)))
    close(actual, expected, what, rtol=rtol, atol=0.0, scale=m)
