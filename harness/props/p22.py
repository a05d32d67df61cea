"""P22: linear programs against an independent formulation."""

import itertools
import math
import operator

import numpy as np
import sympy as sy
from scipy.optimize import linprog
from sympy.parsing.sympy_parser import parse_expr

from harness.core import close, equal, flat, nums, ok, st, sub
from sigmaepsilon.math.function import Equality, Function, InEquality, Relation
from sigmaepsilon.math.function.relation import Relations
from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP

OPS = {"=": operator.eq, ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le}
NAMES = ["x", "y", "x1", "x10", "zeta_1", "E", "S"]
MANY = [f"x{i}" for i in range(14)]


@st.composite
def problems(draw, nmax=4, bounded=False, integer=None, large=False):
    n = draw(st.integers(5, nmax) if large else st.integers(1, nmax))
    m = draw(st.integers(3, 8) if large else st.integers(0, 4))
    small = st.integers(-4, 4)
    x0 = draw(flat(n, st.integers(-2, 3)))
    cons = []
    for _ in range(m):
        a = draw(flat(n, st.one_of(small, nums(-4, 4, 2))))
        op = draw(st.sampled_from(["<=", ">=", "<", ">", "=", "<=", ">="]))
        slack = draw(st.sampled_from([0, 1, 2, 0.5, 3, -1])) if op != "=" else draw(st.sampled_from([0, 0, 0, 1]))
        cons.append(
            {
                "a": a,
                "op": op,
                "b": float(np.dot(a, x0)) + (slack if op in ("<=", "<", "=") else -slack),
                "how": draw(st.sampled_from(["string", "string", "expr", "op", "callable", "callable_str", "class"])),
                "split": draw(flat(n, st.integers(0, 3))),
                "vars": draw(st.sampled_from(["all", "all", "perm", "used"])),
                "factor": draw(st.sampled_from([1, 1, 2, 0.5])),
            }
        )
    if integer is None:
        integer = draw(st.booleans())
    if bounded or integer:
        bounds = [[lo, lo + draw(st.integers(0, 5))] for lo in draw(flat(n, st.integers(-3, 1)))]
    else:
        bounds = draw(
            st.one_of(
                st.just("default"),
                st.just([0, None]),
                st.just([None, None]),
                st.just([-2, 3]),
                flat(n, st.sampled_from([[0, None], [None, 4], [None, None], [-2, 5], [1, 1], [0, 3]])),
            )
        )
    integrality = None
    if integer:
        integrality = draw(flat(n, st.integers(0, 1)))
    return {
        "n": n,
        "c": draw(flat(n, st.one_of(small, nums(-4, 4, 2)))),
        "c0": draw(st.sampled_from([0, 0, 3, -2.5])),
        "cons": cons,
        "bounds": bounds,
        "integrality": integrality,
        "inthow": draw(st.sampled_from(["argument", "assumption"])),
        "names": draw(st.permutations(MANY if large else NAMES))[:n],
        "objvars": draw(st.sampled_from(["all", "perm", "used"])),
        "objhow": draw(st.sampled_from(["string", "expr"])),
        "sparsify": draw(st.sampled_from([None, True, False])),
        "maximize": draw(st.booleans()),
        "perm": draw(st.permutations(range(n))),
    }


def symbols_of(case):
    r = []
    for i, name in enumerate(case["names"]):
        if case["integrality"] is not None and case["inthow"] == "assumption" and case["integrality"][i]:
            r.append(sy.Symbol(name, integer=True))
        else:
            r.append(sy.Symbol(name))
    return r


def text(a, names):
    return " + ".join(f"({v})*{s}" for v, s in zip(a, names) if v != 0 or s not in ("E", "S")) or "0"


def vars_of(kind, a, syms, perm):
    if kind == "perm":
        return [syms[i] for i in perm]
    if kind == "used":
        return [s for s, v in zip(syms, a) if v != 0] or list(syms)
    return list(syms)


def make_constraint(c, case, syms):
    names = list(case["names"])
    n = case["n"]
    k = c["factor"]
    a = [k * v for v in c["a"]]
    b = k * c["b"]
    op, how = c["op"], c["how"]
    vs = vars_of(c["vars"], c["a"], syms, case["perm"])
    if how == "string":
        # terms on both sides: a = left - right
        left = [v if s in (0, 1) else v + 1 for v, s in zip(a, c["split"])]
        right = [l - v for l, v in zip(left, a)]
        L = text(left, names)
        R = text(right, names) + f" + ({b})" if any(right) else f"{b}"
        if any(right) and c["vars"] == "used":
            vs = list(syms)
        return Relation(f"{L} {op} {R}", variables=vs)
    s = f"{text(a, names)} - ({b})"
    if how == "expr":
        s = parse_expr(s, local_dict=dict(zip(names, syms)))
        return Relation(s, variables=vs, op=op)
    if how == "op":
        return Relation(s, variables=vs, operator=Relations(op))
    if how == "class":
        return (Equality if op == "=" else InEquality)(s, variables=vs, op=op)
    if how == "callable_str":
        return Relation(s, variables=vs, op=OPS[op], op_str=op)
    if op == "=":
        return Equality(s, variables=vs)
    return InEquality(s, variables=vs, op=OPS[op])


def make_objective(case, syms, sign=1):
    names = list(case["names"])
    c = [sign * v for v in case["c"]]
    s = f"{text(c, names)} + ({sign * case['c0']})"
    if case["objhow"] == "expr":
        s = parse_expr(s, local_dict=dict(zip(names, syms)))
    return Function(s, variables=vars_of(case["objvars"], case["c"], syms, case["perm"]))


def consistent(case, syms, obj, cons):
    """All variables of the problem must appear somewhere."""
    seen = set(obj.variables)
    for c in cons:
        seen |= set(c.variables)
    return all(s in seen for s in syms)


def make(case, sign=1, order=None, **over):
    case = dict(case, **over)
    syms = symbols_of(case)
    obj = make_objective(case, syms, sign)
    cons = [make_constraint(c, case, syms) for c in case["cons"]]
    if not consistent(case, syms, obj, cons):
        obj = make_objective(dict(case, objvars="all"), syms, sign)
    kw = {}
    order = list(range(case["n"])) if order is None else order
    b = case["bounds"]
    if b != "default":
        if isinstance(b[0], list):
            kw["bounds"] = [tuple(b[i]) for i in order]
        else:
            kw["bounds"] = tuple(b)
    if case["integrality"] is not None and case["inthow"] == "argument":
        kw["integrality"] = [case["integrality"][i] for i in order]
    if case["sparsify"] is not None:
        kw["sparsify"] = case["sparsify"]
    return LPP(obj, cons, variables=[syms[i] for i in order], **kw)


def reference(case):
    """Every constraint is written twice, as a pair of bounds on the rows."""
    n = case["n"]
    sgn = -1 if case["maximize"] else 1
    A, u = [], []
    for c in case["cons"]:
        a, b = np.array(c["a"], dtype=float), c["b"]
        if c["op"] in ("<=", "<", "="):
            A.append(a)
            u.append(b)
        if c["op"] in (">=", ">", "="):
            A.append(-a)
            u.append(-b)
    b = case["bounds"]
    if b == "default":
        b = [0, None]
    if not isinstance(b[0], list):
        b = [b] * n
    res = linprog(
        sgn * np.array(case["c"], dtype=float),
        A_ub=np.array(A) if A else None,
        b_ub=np.array(u) if A else None,
        bounds=[tuple(x) for x in b],
        integrality=case["integrality"],
        method="highs",
        options=PLAIN,
    )
    return res, b


def feasible(case, x, bounds, tol=1e-6):
    for c in case["cons"]:
        d = float(np.dot(c["a"], x)) - c["b"]
        if c["op"] in ("<=", "<") and d > tol:
            return f"{c['a']} x {c['op']} {c['b']} is violated by {d}"
        if c["op"] in (">=", ">") and d < -tol:
            return f"{c['a']} x {c['op']} {c['b']} is violated by {d}"
        if c["op"] == "=" and abs(d) > tol:
            return f"{c['a']} x = {c['b']} is violated by {d}"
    for xi, (lo, hi) in zip(x, bounds):
        if (lo is not None and xi < lo - tol) or (hi is not None and xi > hi + tol):
            return f"bounds {lo}, {hi} are violated by {xi}"
    if case["integrality"] is not None:
        for xi, i in zip(x, case["integrality"]):
            if i and abs(xi - round(xi)) > tol:
                return f"{xi} is not an integer"
    return None


# HiGHS 1.7 returns wrong answers to about one of 200 small mixed integer problems
# (infeasible, or an optimum that is too large), and aborts the process on some problems
# with repeated equalities and free variables, but not without its presolver; the
# sub-check `bounds` uses the default options
PLAIN = {"presolve": False}


def solve(P, case, **kw):
    return P.solve(options=PLAIN, **kw)


def unanswered(case, res):
    """The solver gave up on a mixed integer problem, which is not the library's doing."""
    return case["integrality"] is not None and res.status not in (0, 2, 3)


@sub(
    "P22",
    "optimum",
    problems(),
    "has an optimum and an inequality or an equality",
    nontrivial=lambda c: len(c["cons"]) > 0 and reference(c)[0].status == 0,
    quick=1000,
    shards=4,
)
def optimum(case):
    check_optimum(case)


@sub(
    "P22",
    "large",
    problems(nmax=10, integer=False, large=True),
    "has an optimum",
    nontrivial=lambda c: reference(c)[0].status == 0,
    quick=60,
    shards=2,
)
def large(case):
    check_optimum(case)


def check_optimum(case):
    ref, bounds = reference(case)
    if ref.status not in (0, 2, 3):
        return
    P = make(case)
    res = solve(P, case, maximize=case["maximize"])
    if ref.status != 0:
        # infeasible or unbounded: the solver may report one for the other
        ok(not res.success, f"a problem without an optimum was solved: {res.x}")
        return
    if unanswered(case, res):
        return
    ok(res.success, f"no solution: {res.message}")
    x = np.asarray(res.x, dtype=float)
    equal(x.shape, (case["n"],), "shape of the solution")
    why = feasible(case, x, bounds, 1e-5)
    ok(why is None, f"the solution {x} is not feasible: {why}")
    sgn = -1 if case["maximize"] else 1
    best = sgn * ref.fun + case["c0"]
    close(float(np.dot(case["c"], x)) + case["c0"], best, "objective at the solution", rtol=1e-5, atol=1e-5)
    close(float(res.fun), best, "reported optimum", rtol=1e-5, atol=1e-5)


@sub(
    "P22",
    "integer",
    problems(nmax=3, integer=True),
    "has constraints",
    nontrivial=lambda c: len(c["cons"]) > 0,
    quick=300,
    shards=2,
)
def integer(case):
    """Brute force over the grid of integers."""
    case = dict(case, integrality=[1] * case["n"])
    sgn = -1 if case["maximize"] else 1
    best = None
    for x in itertools.product(*[range(math.ceil(lo), math.floor(hi) + 1) for lo, hi in case["bounds"]]):
        if feasible(case, x, case["bounds"], 1e-9) is None:
            v = sgn * (float(np.dot(case["c"], x)) + case["c0"])
            best = v if best is None else min(best, v)
    res = solve(make(case), case, maximize=case["maximize"])
    if best is None:
        ok(not res.success, f"an infeasible problem was solved: {res.x}")
        return
    if unanswered(case, res):
        return
    ok(res.success, f"no solution: {res.message}")
    why = feasible(case, res.x, case["bounds"], 1e-5)
    ok(why is None, f"the solution {res.x} is not feasible: {why}")
    close(float(res.fun), sgn * best, "optimum", rtol=1e-5, atol=1e-5)


BOUNDS = st.integers(1, 6).flatmap(
    lambda n: st.fixed_dictionaries(
        {
            "n": st.just(n),
            "c": flat(n, st.builds(lambda v, k: v * k, nums(-4, 4, 2), st.sampled_from([1, 1, 1e5, 1e-3]))),
            "limits": st.booleans(),
            "c0": st.sampled_from([0, 2.5]),
            "lo": flat(n, nums(-3, 3, 4)),
            "w": flat(n, nums(1, 5, 4)),
            "int": flat(n, st.integers(0, 1)),
            "how": st.sampled_from(["argument", "assumption", "none"]),
            "one": st.booleans(),
            "maximize": st.booleans(),
            "sparsify": st.booleans(),
        }
    )
)


@sub(
    "P22",
    "bounds",
    BOUNDS,
    "some of the variables are integers",
    nontrivial=lambda c: any(c["int"]) and c["how"] != "none",
    quick=300,
)
def bounds_only(case):
    """With limits only the variables are independent of each other, whatever their weights."""
    n, ints = case["n"], case["int"] if case["how"] != "none" else [0] * case["n"]
    lo, w = (([v[0]] * n) if case["one"] else v for v in (case["lo"], case["w"]))
    hi = [a + b for a, b in zip(lo, w)]
    syms = [sy.Symbol(f"x{i}", integer=True) if k and case["how"] == "assumption" else sy.Symbol(f"x{i}") for i, k in enumerate(ints)]
    f = Function(sum((c * s for c, s in zip(case["c"], syms)), sy.Float(case["c0"])), variables=syms)
    kw = {"integrality": ints} if case["how"] == "argument" else {}
    cons = []
    if case["limits"] and not any(ints):
        # the upper limits are constraints
        cons = [InEquality(s - h, variables=syms, op="<=") for s, h in zip(syms, hi)]
    P = LPP(f, cons, variables=syms, bounds=(lo[0], hi[0]) if case["one"] else list(zip(lo, [None] * n if cons else hi)), sparsify=case["sparsify"], **kw)
    res = P.solve(maximize=case["maximize"])
    ok(res.success, f"no solution: {res.message}")
    sgn = -1 if case["maximize"] else 1
    best = 0.0
    for i in range(n):
        a, b = (math.ceil(lo[i]), math.floor(hi[i])) if ints[i] else (lo[i], hi[i])
        best += min(sgn * case["c"][i] * a, sgn * case["c"][i] * b)
        if abs(case["c"][i]) > 1e-4:
            close(float(res.x[i]), a if sgn * case["c"][i] > 0 else b, f"variable {i}", rtol=1e-9)
        ok(lo[i] - 1e-9 <= res.x[i] <= hi[i] + 1e-9, f"{res.x[i]} is out of bounds")
        ok(not ints[i] or abs(res.x[i] - round(res.x[i])) < 1e-6, f"{res.x[i]} is not an integer")
    close(float(np.dot(case["c"], res.x)), sgn * best, "objective at the solution", rtol=1e-9)
    close(float(res.fun), sgn * best + case["c0"], "optimum", rtol=1e-9)


@st.composite
def vertices(draw):
    """A problem with a single vertex and a known multiplier for each of the constraints."""
    n = draw(st.integers(1, 5))
    ops = draw(flat(n, st.sampled_from(["=", "<=", ">=", "<", ">"])))
    return {
        "n": n,
        "Q": draw(flat(n * n, nums(-1, 1, 8))),
        "rows": draw(st.permutations(range(n))),
        "factors": draw(flat(n, st.sampled_from([1, -1, 3, 0.1, -7]))),
        "x0": draw(flat(n, nums(-5, 5, 8))),
        "y": draw(flat(n, nums(0.25, 4, 8))),
        "ops": ops,
        "hows": draw(flat(n, st.sampled_from(["string", "expr", "op", "callable", "class"]))),
        "units": draw(flat(n, st.sampled_from([1, 1, 1, 1e3, 1e-3]))),
        "c0": draw(nums(-5, 5, 8)),
        "names": draw(st.permutations(NAMES))[:n],
        "sparsify": draw(st.sampled_from([None, True, False])),
        "maximize": draw(st.booleans()),
        "objhow": draw(st.sampled_from(["string", "expr"])),
        "free": draw(st.booleans()),
    }


def vertex_problem(case):
    n = case["n"]
    # diagonally dominant, rows permuted and scaled
    Q = np.array(case["Q"], dtype=float).reshape(n, n) + (n + 1) * np.eye(n)
    Q = Q[list(case["rows"])] * np.array(case["factors"], dtype=float)[:, None]
    u = np.array(case["units"], dtype=float)
    x0, y = u * case["x0"], np.array(case["y"], dtype=float)
    Q = Q / u
    b = Q @ x0
    # minimum: positive multipliers of lower, negative ones of upper limits
    y = y * np.array([-1.0 if o[0] == "<" else 1.0 for o in case["ops"]])
    c = Q.T @ y * (-1 if case["maximize"] else 1)
    cons = [
        {"a": Q[i].tolist(), "op": case["ops"][i], "b": float(b[i]), "how": case["hows"][i], "split": [0] * n, "vars": "all", "factor": 1}
        for i in range(n)
    ]
    bounds = [None, None] if case["free"] else [[float(v - k), float(v + 2 * k)] for v, k in zip(x0, u)]
    return dict(
        case, c=c.tolist(), cons=cons, bounds=bounds, integrality=None, inthow="argument", objvars="all", perm=list(range(n))
    )


def check_vertex(problem, case, what, **over):
    u = np.array(case["units"], dtype=float)
    x0 = u * case["x0"]
    best = float(np.dot(problem["c"], x0)) + case["c0"]
    size = 1 + float(np.sum(np.abs(problem["c"]) * u))
    res = solve(make(problem, **over), problem, maximize=case["maximize"])
    ok(res.success, f"{what}: no solution: {res.message}")
    close(res.x / u, x0 / u, f"{what}: the only vertex", rtol=0, atol=2e-9)
    close(float(res.fun), best, f"{what}: optimum", rtol=1e-10, atol=2e-9 * size)


@sub(
    "P22",
    "vertex",
    vertices(),
    "more than one variable",
    nontrivial=lambda c: c["n"] > 1,
    quick=160,
    shards=3,
)
def vertex(case):
    check_vertex(vertex_problem(case), case, "vertex")
