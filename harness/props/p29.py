"""P29: weight functions and their derivatives by the position of the core."""

import numpy as np

from harness.core import close, equal, flat, nums, ok, st, sub
from harness.lslab import constant, cubic, singular
from harness.props.p28 import differences
from sigmaepsilon.math.approx import ConstantWeightFunction, CubicWeightFunction, SingularWeightFunction
from sigmaepsilon.math.approx.functions import isMLSWeightFunction


def rescaled(case):
    """The same configuration in other units of length."""
    u = case["unit"]
    return dict(case, core=[v * u for v in case["core"]], sd=[v * u for v in case["sd"]], x=[v * u for v in case["x"]], eps=case["eps"] * u)


CASE = st.sampled_from([1, 2, 3]).flatmap(
    lambda d: st.fixed_dictionaries(
        {
            "dim": st.just(d),
            "kind": st.sampled_from(["cubic", "singular", "constant", "support"] if d < 3 else ["singular", "constant", "support"]),
            "core": flat(d, nums(-2, 2, 16)),
            "sd": flat(d, nums(0.5, 3, 8)),
            "x": flat(d, nums(-3, 3, 16)),
            "rel": st.booleans(),
            "eps": st.sampled_from([1e-5, 0.1, 0.5, 1]),
            "value": nums(0.25, 3, 4),
            "move": st.booleans(),
            "key": st.sampled_from(["sd", "supportdomain"]),
            "list": st.booleans(),
            "start": st.integers(0, 2),
            "unit": st.sampled_from([1.0, 1.0, 1.0, 1000.0, 0.001]),
        }
    )
).map(rescaled)


def make(case):
    d, k = case["dim"], case["kind"]
    core, sd = list(case["core"]), list(case["sd"])
    # where the core is before it is moved, if it is
    start = [[0.5] * d, [1] * d, [0.25, -1, 2][:d]][case["start"]] if case["move"] else core
    kw = {case["key"]: sd}
    source = np.array(start)
    if k == "cubic":
        w = CubicWeightFunction(core=source if case["list"] else start, **kw)
        f = lambda c, x: cubic(c, sd, x)
    elif k == "singular":
        w = SingularWeightFunction(core=source, eps=case["eps"])
        f = lambda c, x: singular(c, case["eps"], x)
    elif k == "support":
        w = ConstantWeightFunction(core=source, value=case["value"], **kw)
        f = lambda c, x: constant(c, sd, x, case["value"])
    else:
        w = ConstantWeightFunction(dim=d, value=case["value"])
        f = lambda c, x: case["value"]
    if case["move"] and k != "constant":
        w.core = core if case["list"] else np.array(core)
        equal(source.tolist(), start, "array of the first position of the core, after it was moved")
    return w, f


@sub("P29", "weights", CASE, "a weight that varies, off the core", nontrivial=lambda c: c["kind"] in ("cubic", "singular") and c["x"] != c["core"], quick=1000, shards=2)
def weights(case):
    w, f = make(case)
    ok(isMLSWeightFunction(w), "not a weight function")
    d, core = case["dim"], case["core"]
    u = case["unit"]
    x = [c + s * v / u / 3 for c, s, v in zip(core, case["sd"], case["x"])] if case["rel"] else list(case["x"])
    if case["kind"] == "support" and any(abs(abs(a - b) - s) < 1e-9 * u for a, b, s in zip(core, x, case["sd"])):
        return
    arg = list(x) if case["list"] else np.array(x)
    v = f(core, x)
    unit = u**-2 if case["kind"] == "singular" else 1.0
    close(float(w(arg)), v, "weight", rtol=1e-12, atol=1e-12 * unit)
    close(float(w.f(arg)), v, "weight (f)", rtol=1e-12, atol=1e-12 * unit)
    ok(float(w(arg)) >= -1e-12, "negative weight")
    # even: the weight depends on the distances from the core only
    y = [2 * c - xi for c, xi in zip(core, x)]
    close(float(w(np.array(y))), v, "weight of the mirrored point", rtol=1e-9, atol=1e-12 * unit)
    ok(float(w(arg)) <= float(w(np.array(core, dtype=float))) * (1 + 1e-12) + 1e-12 * unit, "weight is not the largest at the core")
    g, H = np.asarray(w.g(arg), dtype=float), np.asarray(w.G(arg), dtype=float)
    equal(g.shape, (d,), "shape of the gradient")
    equal(H.shape, (d, d), "shape of the Hessian")
    close(H, H.T, "transpose of the Hessian", atol=1e-12 * np.abs(H).max())
    if case["kind"] in ("constant", "support"):
        close(g, np.zeros(d), "gradient of a constant")
        close(H, np.zeros((d, d)), "Hessian of a constant")
        return
    eps = case["eps"]
    if case["kind"] == "singular":
        r2 = sum((a - b) ** 2 for a, b in zip(core, x)) + eps**2
        if r2 < 0.01 * u**2:
            return
        h = 1e-3 * np.sqrt(r2)
        s1, s2 = r2**-1.5, r2**-2
    else:
        h = 1e-3 * u
        s1, s2 = 1 / u, 1 / u**2
        for c, s, xi in zip(core, case["sd"], x):
            r = abs(c - xi) / s
            if min(abs(r - 0.5), abs(r - 1)) * s < 0.005 * u or 0 < r * s < 0.005 * u:
                return
    F = lambda c: f(c, x)
    at_core = case["kind"] == "cubic" and any(abs(a - b) < 1e-9 * u for a, b in zip(core, x))
    t2 = 0.1 if at_core else 1e-5
    for i in range(d):
        close(g[i], differences(F, core, (i,), h), f"gradient {i}", rtol=1e-6, atol=(1e-6 if not at_core else 1e-4) * s1)
        for j in range(d):
            close(H[i, j], differences(F, core, (i, j), h), f"Hessian {i}, {j}", rtol=1e-6, atol=t2 * s2)


@sub(
    "P29",
    "units",
    st.tuples(CASE, st.integers(-60, 40), flat(3, st.sampled_from([0.0, 1.0, 1.0, 1e-3, 1e-6]))).map(lambda t: dict(t[0], s=t[1], near=t[2])),
    "a weight that varies, in other units",
    nontrivial=lambda c: c["kind"] in ("cubic", "singular") and c["s"] != 0,
    quick=500,
)
def units(case):
    """In other units of length the weights are the same and the derivatives follow."""
    s = 2.0 ** case["s"]
    core, sd = case["core"], case["sd"]
    x = [c + k * (v - c) for c, v, k in zip(core, case["x"], case["near"])]
    scaled = dict(case, core=[v * s for v in core], sd=[v * s for v in sd], eps=case["eps"] * s)
    (a, _), (b, _) = make(dict(case, move=False)), make(dict(scaled, move=False))
    k = s**2 if case["kind"] == "singular" else 1.0
    p, q = np.array(x), np.array(x) * s
    close(float(b(q)) * k, float(a(p)), "weight", rtol=1e-9, atol=0)
    g, H = np.asarray(a.g(p), dtype=float), np.asarray(a.G(p), dtype=float)
    close(np.asarray(b.g(q), dtype=float) * k * s, g, "gradient", rtol=1e-9, atol=1e-12 * np.abs(g).max())
    close(np.asarray(b.G(q), dtype=float) * k * s * s, H, "Hessian", rtol=1e-9, atol=1e-12 * np.abs(H).max())
    if case["kind"] == "cubic" and len(core) == case["dim"]:
        # the derivatives in closed form, also next to the core
        parts = []
        for c, w, v in zip(core, sd, x):
            r, sg = abs(c - v) / w, np.sign(c - v)
            if abs(r - 0.5) < 1e-9 or abs(r - 1) < 1e-9:
                return
            if r < 0.5:
                parts.append((2 / 3 - 4 * r**2 + 4 * r**3, (-8 * r + 12 * r**2) * sg / w, (-8 + 24 * r) / w**2))
            elif r < 1:
                parts.append((4 / 3 * (1 - r) ** 3, -4 * (1 - r) ** 2 * sg / w, 8 * (1 - r) / w**2))
            else:
                parts.append((0.0, 0.0, 0.0))
        n = case["dim"]
        for i in range(n):
            e = np.prod([parts[m][1 if m == i else 0] for m in range(n)])
            close(g[i], e, f"gradient {i}", rtol=1e-9, atol=1e-12 * np.prod([1 / w for w in sd]) * max(sd))
            for j in range(n):
                e = np.prod([parts[m][2 if m == i == j else 1 if m in (i, j) else 0] for m in range(n)])
                close(H[i, j], e, f"Hessian {i}, {j}", rtol=1e-9, atol=1e-10 * max(1 / w**2 for w in sd))
