"""P23: transformations of linear programs that do not change the optimum."""

import numpy as np

from harness.core import close, equal, ok, raises, st, sub
from harness.props.p22 import NAMES, make, problems, reference
from harness.props import p22
from sigmaepsilon.math.function import Function, Relation
from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP

FLIP = {"=": "=", "<=": ">=", ">=": "<=", "<": ">", ">": "<"}


def flipped(c, k):
    return dict(c, a=[-k * v for v in c["a"]], b=-k * c["b"], op=FLIP[c["op"]])


def agree(case, a, b, what, shift=0.0, sign=1):
    if a.success != b.success and (p22.unanswered(case, a) or p22.unanswered(case, b)):
        return
    equal(bool(b.success), bool(a.success), f"{what}: success")
    if a.success:
        close(float(b.fun), sign * float(a.fun) + shift, f"{what}: optimum", rtol=1e-5, atol=1e-5)


CASE = st.tuples(
    problems(nmax=3),
    st.fixed_dictionaries(
        {
            "corder": st.permutations(range(4)),
            "k": st.sampled_from([0.5, 1, 2, 4]),
            "rename": st.permutations(NAMES),
            "shift": st.sampled_from([1, -2.5]),
            "which": st.sets(st.sampled_from(["sparse", "negate", "order", "flip", "dup", "rename", "strict", "shift", "how"]), min_size=2, max_size=4).map(sorted),
        }
    ),
).map(lambda t: dict(t[0], **t[1]))


@sub(
    "P23",
    "invariance",
    CASE,
    "has an optimum and a constraint",
    nontrivial=lambda c: len(c["cons"]) > 0 and reference(c)[0].status == 0,
    quick=300,
    shards=5,
)
def invariance(case):
    mx = case["maximize"]
    if reference(case)[0].status not in (0, 2, 3):
        return

    def solve(P, **kw):
        return p22.solve(P, case, **kw)

    def compare(*args, **kw):
        agree(case, *args, **kw)

    P = make(case)
    base = solve(P, maximize=mx)
    compare(base, solve(P, maximize=mx), "solved twice")
    n = case["n"]
    w = case["which"]
    if "sparse" in w:
        s, d = (solve(make(case, sparsify=b), maximize=mx) for b in (True, False))
        compare(base, s, "sparse")
        compare(base, d, "dense")
    if "negate" in w:
        compare(base, solve(make(case, sign=-1), maximize=not mx), "negated objective", sign=-1)
        # the same problem object can be minimized and maximized
        r = solve(P, maximize=not mx)
        q = solve(make(case), maximize=not mx)
        compare(q, r, "the other direction")
        compare(base, solve(P, maximize=mx), "solved after the other direction")
    if "order" in w:
        order = case["perm"]
        r = solve(make(case, order=order), maximize=mx)
        compare(base, r, "permuted variables")
        k = len(case["cons"])
        cons = [case["cons"][i] for i in case["corder"] if i < k]
        compare(base, solve(make(case, cons=cons), maximize=mx), "permuted constraints")
    if "flip" in w:
        cons = [flipped(c, case["k"]) if i % 2 == 0 else c for i, c in enumerate(case["cons"])]
        compare(base, solve(make(case, cons=cons), maximize=mx), "multiplied constraints")
    if "dup" in w and case["cons"]:
        # a repeated and an implied constraint
        c = case["cons"][0]
        weak = dict(c, b=c["b"] + {"<": 1, "<=": 1, ">": -1, ">=": -1, "=": 0}[c["op"]])
        compare(base, solve(make(case, cons=case["cons"] + [c, weak]), maximize=mx), "redundant constraints")
        # an equality is a pair of inequalities
        cons = []
        for c in case["cons"]:
            if c["op"] == "=":
                cons += [dict(c, op="<="), dict(c, op=">=")]
            else:
                cons.append(c)
        compare(base, solve(make(case, cons=cons), maximize=mx), "equalities as pairs of inequalities")
    if "rename" in w:
        compare(base, solve(make(case, names=case["rename"][:n]), maximize=mx), "renamed variables")
    if "strict" in w:
        swap = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "=": "="}
        cons = [dict(c, op=swap[c["op"]]) for c in case["cons"]]
        compare(base, solve(make(case, cons=cons), maximize=mx), "strict and non-strict inequalities")
    if "shift" in w:
        compare(base, solve(make(case, c0=case["c0"] + case["shift"]), maximize=mx), "shifted objective", shift=case["shift"])
    if "how" in w:
        for h in ("string", "expr", "callable", "class"):
            cons = [dict(c, how=h, vars="all") for c in case["cons"]]
            compare(base, solve(make(case, cons=cons, objvars="all"), maximize=mx), f"constraints given as {h}")
        if case["integrality"] is not None:
            for h in ("argument", "assumption"):
                compare(base, solve(make(case, inthow=h), maximize=mx), f"integrality given as {h}")


@sub(
    "P23",
    "vertex",
    p22.vertices(),
    "more than one variable",
    nontrivial=lambda c: c["n"] > 1,
    quick=50,
    shards=3,
)
def vertex(case):
    """The solution itself, if there is only one, and not just the optimum."""
    P = p22.vertex_problem(case)
    n = case["n"]
    check = p22.check_vertex
    check(P, case, "sparse", sparsify=True)
    check(P, case, "dense", sparsify=False)
    check(P, case, "constraints in another order", cons=P["cons"][::-1])
    check(P, case, "multiplied constraints", cons=[flipped(c, 3.0) for c in P["cons"]])
    check(P, case, "renamed variables", names=[f"q{i}" for i in range(n)])
    check(P, case, "the other form", objhow="expr" if case["objhow"] == "string" else "string")


@sub(
    "P23",
    "weights",
    p22.BOUNDS,
    "more than one variable",
    nontrivial=lambda c: c["n"] > 1,
    quick=60,
)
def weights(case):
    """Sparse and dense problems have the same solution, whatever the magnitudes of the objective."""
    for s in (True, False):
        p22.bounds_only(dict(case, sparsify=s))


@sub(
    "P23",
    "invalid",
    st.sampled_from(["variables", "strings", "unknown", "objective", "numerical", "constraint", "numerical_constraint"]).map(
        lambda k: {"kind": k}
    ),
    "always",
    quick=14,
)
def invalid(case):
    import sympy as sy

    x, y, z = sy.symbols("x y z")
    f = Function(x + y, variables=[x, y])
    c = Relation(x - y, op="<=", variables=[x, y])
    k = case["kind"]
    if k == "variables":
        raises(ValueError, lambda: LPP(f, [c]), "no variables")
    elif k == "strings":
        raises(TypeError, lambda: LPP(f, [c], variables=["x", "y"]), "names of variables")
    elif k == "unknown":
        raises(ValueError, lambda: LPP(f, [c], variables=[x, y, z]), "unknown variable")
    elif k == "objective":
        raises(TypeError, lambda: LPP(x + y, [c], variables=[x, y]), "not a function")
    elif k == "numerical":
        raises(ValueError, lambda: LPP(Function(lambda v: v[0], d=2), [c], variables=[x, y]), "numerical objective")
    elif k == "constraint":
        raises(TypeError, lambda: LPP(f, [f], variables=[x, y]), "not a relation")
    else:
        r = Relation(lambda v: v[0], op="<=", d=2)
        raises(ValueError, lambda: LPP(f, [r], variables=[x, y]), "numerical constraint")
