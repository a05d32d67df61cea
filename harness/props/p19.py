"""P19: values, gradients and Hessians of symbolic functions against second order jets."""

import numpy as np
import sympy as sy

from harness.core import close, equal, flat, nums, ok, st, sub
from harness.expr import DECLARED, EVEN, NAMES, TooLarge, jet, poly, size, to_str, to_text, trees, used
from sigmaepsilon.math.function import Function
from sigmaepsilon.math.function.symutils import generate_symbols
from sympy.parsing.sympy_parser import parse_expr


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 6]))
    v = draw(st.sampled_from(["names", "symbols", "tuple", "real", "none", "default", "generated"]))
    return {
        "n": n,
        "tree": draw(st.one_of(trees(n).filter(lambda t: size(t) >= 4 and used(t)), trees(n))),
        "names": draw(st.permutations(NAMES if v in ("none", "default") else DECLARED))[:n],
        "how": draw(st.sampled_from(["str", "expr"])),
        "vars": v,
        "other": draw(st.booleans()),
        "simplify": draw(st.sampled_from([None, True, False])),
        "points": draw(st.lists(flat(n, nums(-3, 3, 8)), min_size=1, max_size=3)),
        "update": draw(st.booleans()),
        "style": draw(st.sampled_from(["plain", "spaced", "tight"])),
    }


def make(case, cls=Function):
    """Returns the function and the order of the variables in the argument."""
    n, names, tree = case["n"], list(case["names"]), case["tree"]
    v = case["vars"]
    if v == "generated":
        names = [f"q{i + 1}" for i in range(n)]
    style = case.get("style", "plain")
    s = to_str(tree, names) if style == "plain" else to_text(tree, names, style == "tight")
    kw = {}
    syms = sy.symbols(names, real=True) if v == "real" else sy.symbols(names)
    if v == "names":
        kw["variables"] = names
    elif v in ("symbols", "real"):
        kw["variables"] = list(syms)
    elif v == "tuple":
        kw["variables"] = tuple(syms)
    elif v == "generated":
        kw["variables"] = generate_symbols("q{}", range(1, n + 1), real=True)
    elif v == "none":
        kw["variables"] = None
    if case["simplify"] is not None:
        kw["simplify"] = case["simplify"]
    if case["how"] == "expr":
        own = syms
        if case["other"] and v not in ("none", "default"):
            # the same names with other assumptions
            own = sy.symbols(names, real=v != "real" or None)
        s = parse_expr(s, local_dict=dict(zip(names, own)))
        if not isinstance(s, sy.Expr):
            return None, None
        if v in ("none", "default") and not s.free_symbols:
            return None, None  # a constant without variables is not a function
    if case["update"]:
        f = cls("x1 + 3*x2", variables=["x1", "x2"])
        f.update(s, **kw)
    else:
        f = cls(s, **kw)
    order = [names.index(str(w)) for w in f.variables]
    if "variables" in kw and kw["variables"]:
        equal(order, list(range(n)), "order of the variables")
    else:
        ok(len(set(order)) == len(order), "repeated variables")
        ok(set(order) <= used(tree), "variables the expression does not have")
    return f, order


@sub(
    "P19",
    "symbolic",
    cases(),
    "at least two operations and a variable that appears",
    nontrivial=lambda c: size(c["tree"]) >= 3 and len(used(c["tree"])) > 0,
    quick=1000,
    shards=3,
)
def symbolic(case):
    if not used(case["tree"]) and case["vars"] in ("none", "default"):
        return
    f, order = make(case)
    if f is None or not order:
        return
    ok(f.is_symbolic, "the function is not symbolic")
    equal(int(f.dimension), len(order), "number of dimensions")
    n = len(order)
    for x in case["points"]:
        try:
            J = jet(case["tree"], x)
        except TooLarge:
            continue
        scale = 1 + abs(J.v) + np.abs(J.g).max() + np.abs(J.H).max()
        g, H = J.g[order], J.H[np.ix_(order, order)]
        for y in ([x[i] for i in order], np.array([x[i] for i in order])):
            kw = dict(rtol=1e-7, atol=1e-8, scale=scale)
            close(float(f(y)), J.v, "value", **kw)
            close(float(f.f(y)), J.v, "value (f)", **kw)
            close(np.asarray(f.g(y), dtype=float), g, "gradient", **kw)
            close(np.asarray(f.G(y), dtype=float), H, "Hessian", **kw)
    # simplification does not change the function
    f.simplify()
    h = Function(f.expr, variables=f.variables)
    for x in case["points"]:
        try:
            J = jet(case["tree"], x)
        except TooLarge:
            continue
        close(float(h([x[i] for i in order])), J.v, "value, simplified", rtol=1e-7, atol=1e-8)
        close(float(f([x[i] for i in order])), J.v, "value, after simplification", rtol=1e-7, atol=1e-8)


@st.composite
def branches_cases(draw):
    """Nested powers and logarithms, where careless simplification changes the sign."""
    n = draw(st.sampled_from([1, 2, 2, 3]))
    t = [draw(st.sampled_from(EVEN)), draw(trees(n, leaves=3, unary=False).filter(lambda t: any(any(k) for k in poly(t, n))))]
    o = draw(st.sampled_from(["alone", "+", "-", "*", "/"]))
    if o != "alone":
        t = [o, t, draw(trees(n, leaves=2, unary=False))]
    return {
        "n": n,
        "tree": t,
        "names": draw(st.permutations(NAMES))[:n],
        "how": draw(st.sampled_from(["str", "expr"])),
        "vars": draw(st.sampled_from(["names", "symbols", "tuple", "none", "default"])),
        "other": False,
        "simplify": draw(st.sampled_from([None, True, False])),
        "points": draw(st.lists(flat(n, nums(-3, 3, 8)), min_size=2, max_size=4)),
        "update": draw(st.booleans()),
    }


@sub(
    "P19",
    "branches",
    branches_cases(),
    "a point with a negative coordinate",
    nontrivial=lambda c: any(x < 0 for p in c["points"] for x in p),
    quick=200,
)
def branches(case):
    symbolic(case)


@sub(
    "P19",
    "broadcast",
    cases(),
    "several points",
    nontrivial=lambda c: len(c["points"]) > 1 and size(c["tree"]) >= 3,
    quick=150,
)
def broadcast(case):
    """Values at many points at once."""
    if not used(case["tree"]):
        return
    f, order = make(case)
    if f is None or not order:
        return
    try:
        expected = [jet(case["tree"], x).v for x in case["points"]]
    except TooLarge:
        return
    X = np.array(case["points"])[:, order]
    res = f(list(X.T))
    close(np.broadcast_to(np.asarray(res, dtype=float), (len(X),)), np.array(expected), "values", rtol=1e-7, atol=1e-8)
    res = f(X.T)
    close(np.broadcast_to(np.asarray(res, dtype=float), (len(X),)), np.array(expected), "values", rtol=1e-7, atol=1e-8)


@sub(
    "P19",
    "numerical",
    st.fixed_dictionaries(
        {
            "n": st.integers(1, 4),
            "x": flat(4, nums()),
            "a": flat(4, nums()),
            "how": st.sampled_from(["positional", "keyword", "partial", "subclass", "grandchild"]),
            "dim": st.sampled_from(["d", "dim", "dimension"]),
            "split": st.booleans(),
        }
    ),
    "more than one variable",
    nontrivial=lambda c: c["n"] > 1,
    quick=200,
)
def numerical(case):
    """Callables are called as they are, and never mixed up."""
    n = case["n"]
    x, a = np.array(case["x"][:n]), np.array(case["a"][:n])

    def split(f):
        return (lambda *args: f(np.array(args))) if case["split"] else f

    f0 = split(lambda y: float(a @ y**2))
    f1 = split(lambda y: 2 * a * y)
    f2 = split(lambda y: 2 * np.diag(a))
    kw = {case["dim"]: n}
    if case["how"] == "positional":
        f = Function(f0, f1, f2, **kw)
    elif case["how"] == "keyword":
        f = Function(value=f0, gradient=f1, Hessian=f2, **kw)
    elif case["how"] == "partial":
        f = Function(f0, f1, **kw)
    else:
        # a subclass with methods of its own
        class Mine(Function):
            def value(self, *args):
                return f0(*args)

            def gradient(self, *args):
                return f1(*args)

            def Hessian(self, *args):
                return f2(*args)

        class Other(Mine):
            def gradient(self, *args):
                return -f1(*args)

        f = Mine(**kw)
        if case["how"] == "grandchild":
            g = Other(**kw)
            args = tuple(x) if case["split"] else (x,)
            close(g(*args), a @ x**2, "value of the derived class")
            close(g.g(*args), -2 * a * x, "gradient of the derived class")
            close(g.G(*args), 2 * np.diag(a), "Hessian of the derived class")
    args = tuple(x) if case["split"] else (x,)
    ok(not f.is_symbolic, "the function is symbolic")
    equal(f.dimension, n, "dimensions")
    close(f(*args), a @ x**2, "value")
    close(f.f(*args), a @ x**2, "value (f)")
    close(f.g(*args), 2 * a * x, "gradient")
    if case["how"] == "partial":
        equal(f.is_linear, True, "a function without a Hessian is linear")
    elif case["how"] in ("subclass", "grandchild"):
        close(f.G(*args), 2 * np.diag(a), "Hessian")
    else:
        close(f.G(*args), 2 * np.diag(a), "Hessian")
        equal(f.is_linear, False, "a function with a Hessian is not linear")
