"""P21: relations against exact arithmetic."""

import operator
from fractions import Fraction

import numpy as np
import sympy as sy

from harness.core import close, equal, flat, nums, ok, raises, st, sub
from harness.expr import DECLARED, peval, poly, size, to_str, to_text, trees
from sigmaepsilon.math.function import Equality, Function, InEquality, Relation
from sigmaepsilon.math.function.relation import Relations
from sigmaepsilon.math.function.utils import has_operator, parse_expression

OPS = {"=": operator.eq, ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le}
LATEX = {"=": "=", ">": ">", ">=": r"\geq", "<": "<", "<=": r"\leq"}
CLS = {"=": Equality, ">": InEquality, ">=": InEquality, "<": InEquality, "<=": InEquality}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    return {
        "n": n,
        "lhs": draw(trees(n, leaves=4, unary=False)),
        "rhs": draw(trees(n, leaves=3, unary=False)),
        "tight": draw(st.booleans()),
        "op": draw(st.sampled_from(sorted(OPS))),
        "how": draw(st.sampled_from(["string", "string", "string", "op", "operator", "enum", "callable", "callable_str", "default"])),
        "class": draw(st.sampled_from(["Relation", "own"])),
        "sep": draw(st.sampled_from(["", " ", "  "])),
        "names": draw(st.permutations(DECLARED))[:n],
        "style": draw(st.sampled_from(["plain", "spaced", "tight", "mixed"])),
        "expr": draw(st.booleans()),
        "points": draw(st.lists(flat(n, nums(-2, 2, 2, exact=True)), min_size=1, max_size=4)),
    }


def strip(t):
    """Integer constants, so that everything is exact."""
    if isinstance(t, (int, float)):
        return int(t)
    return [t[0]] + [strip(a) if isinstance(a, (list, float)) else a for a in t[1:]]


def prepare(case):
    n = case["n"]
    lhs, rhs = strip(case["lhs"]), strip(case["rhs"])
    if case["tight"]:
        # satisfied as an equality at the first point
        d = peval(poly(lhs, n), case["points"][0]) - peval(poly(rhs, n), case["points"][0])
        if abs(d) < 1000 and d.denominator <= 16:
            rhs = ["+", rhs, float(d)]
    return lhs, rhs


@sub(
    "P21",
    "relate",
    cases(),
    "the two sides are equal at a point or the operator comes from the string",
    nontrivial=lambda c: c["tight"] or c["how"] == "string",
    quick=800,
    shards=3,
)
def relate(case):
    n, names = case["n"], list(case["names"])
    lhs, rhs = prepare(case)
    style = case.get("style", "plain")
    if style == "plain":
        L, R = to_str(lhs, names), to_str(rhs, names)
        # the outermost parentheses of the sides are not needed by the grammar
        if R.startswith("(") and R.endswith(")") and not isinstance(rhs, (int, float)) and rhs[0] in "+-*":
            R = R[1:-1]
        if L.startswith("(") and L.endswith(")") and not isinstance(lhs, (int, float)) and lhs[0] in "+-*":
            L = L[1:-1]
    else:
        L = to_text(lhs, names, style != "spaced")
        R = to_text(rhs, names, style == "tight")
    op = case["op"]
    how = case["how"]
    kw = {"variables": names}
    if how == "default":
        op = "="
    if how == "callable" and case["class"] == "Relation":
        cls = Relation
    elif case["class"] == "own":
        cls = CLS[op]
        if how == "callable" and cls is Equality:
            cls = Relation
    else:
        cls = Relation
    if how == "default" and cls is InEquality:
        cls = Relation
    if how == "string":
        s = f"{L}{case['sep']}{op}{case['sep']}{R}"
        ok(has_operator(s), f"no operator in {s}")
        equal(parse_expression(s), (L, op, R), "parsed expression")
        r = cls(s, **kw)
    else:
        e = f"{L} - ({R})"
        ok(not has_operator(e), f"operator in {e}")
        if case["expr"]:
            from sympy.parsing.sympy_parser import parse_expr

            e = parse_expr(e, local_dict={v: sy.Symbol(v) for v in names})
            kw["variables"] = list(sy.symbols(names))
        if how == "op":
            kw["op"] = op
        elif how == "operator":
            kw["operator"] = op
        elif how == "enum":
            kw["op"] = Relations(op)
        elif how in ("callable", "callable_str"):
            kw["op"] = OPS[op]
            if how == "callable_str":
                kw["op_str"] = op
        r = cls(e, **kw)
    ok(isinstance(r, Relation) and isinstance(r, Function), "not a relation")
    if not (how == "callable" and cls is Relation):
        ok(type(r) is CLS[op], f"{type(r).__name__} for operator {op}")
    if how not in ("callable", "callable_str"):
        equal(r.operator, Relations(op), "operator")
        equal(r.op, Relations(op), "operator")
        equal(r.op.to_opfunc(), OPS[op], "operator function")
        t = r.to_latex()
        ok(t.endswith(f" {LATEX[op]} 0"), f"LaTeX code {t!r} of a relation with {op}")
    PL, PR = poly(lhs, n), poly(rhs, n)
    for x in case["points"]:
        a, b = peval(PL, x), peval(PR, x)
        if max(abs(a), abs(b)) > 1e6 or (a - b).denominator > 2**20:
            continue
        close(float(r(x)), float(a - b), "difference of the sides", rtol=1e-12, atol=1e-9)
        if float(r(x)) != float(a - b) and abs(a - b) < 1e-6:
            continue  # rounded
        equal(bool(r.relate(x)), OPS[op](a, b), f"{L} {op} {R} at {x}")
        equal(bool(r.relate(np.array(x))), OPS[op](a, b), f"{L} {op} {R} at {x}")


@sub(
    "P21",
    "invalid",
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["two", "eqeq", "reversed", "empty_left", "empty_right", "op", "neq", "wrong_class"]),
            "op": st.sampled_from(sorted(OPS)),
            "op2": st.sampled_from(sorted(OPS)),
            "a": st.integers(-5, 5),
            "bad": st.sampled_from(["==", "!=", "=<", "=>", "<>", "~", "eq", ">>"]),
            "sep": st.sampled_from(["", " "]),
        }
    ),
    "always",
    quick=150,
)
def invalid(case):
    k, sep, op = case["kind"], case["sep"], case["op"]
    if k == "two":
        s = sep.join([str(case["a"]), op, "x", case["op2"], "9"])
        raises(ValueError, lambda: parse_expression(s), f"parsing {s!r}")
        raises(ValueError, lambda: Relation(s), f"relation {s!r}")
    elif k == "eqeq":
        s = sep.join(["x", "==", "2"])
        raises(ValueError, lambda: Relation(s), f"relation {s!r}")
    elif k == "reversed":
        s = sep.join(["x", "=<", "2"])
        raises(ValueError, lambda: Relation(s), f"relation {s!r}")
    elif k == "empty_left":
        s = op + sep + "2"
        raises(ValueError, lambda: parse_expression(s), f"parsing {s!r}")
    elif k == "empty_right":
        s = "x" + sep + op
        raises(ValueError, lambda: parse_expression(s), f"parsing {s!r}")
    elif k in ("op", "neq"):
        raises(ValueError, lambda: Relation("x - 2", op=case["bad"]), f"operator {case['bad']!r}")
    else:
        if op == "=":
            raises(AssertionError, lambda: InEquality("x - 2", op=op), "inequality with =")
        else:
            raises(AssertionError, lambda: Equality("x - 2", op=op), f"equality with {op}")


@sub(
    "P21",
    "close",
    st.integers(1, 3).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "c": flat(n, st.sampled_from([1, -1, 2, -2, 3])),
                "x": flat(n, nums(-2, 2, 4, exact=True)),
                "op": st.sampled_from(sorted(OPS)),
                "bits": st.integers(8, 40),
                "scale": st.sampled_from([0, 0, 0, 30, -30, -100]),
                "sign": st.sampled_from([1, -1, 0]),
                "how": st.sampled_from(["string", "op", "callable"]),
            }
        )
    ),
    "the point is close to the limit, but not on it",
    nontrivial=lambda c: c["sign"] != 0,
    quick=150,
)
def close_by(case):
    """Points close to the limit. The numbers are such that nothing is rounded."""
    c, op = case["c"], case["op"]
    names = ["x", "y", "z"][: len(c)]
    s = 2.0 ** case["scale"]
    at = [v * s for v in case["x"]]
    rhs = sum(a * Fraction(v) for a, v in zip(c, at))
    at[0] += case["sign"] * s * 2.0 ** -case["bits"]
    lhs = sum(a * Fraction(v) for a, v in zip(c, at))
    # the right hand side is a variable too: it need not go through a text
    names.append("w")
    at.append(float(rhs))
    L = " + ".join(f"({a})*{v}" for a, v in zip(c, names))
    if case["how"] == "string":
        r = Relation(f"{L} {op} w", variables=names)
    else:
        r = Relation(f"{L} - w", op=op if case["how"] == "op" else OPS[op], variables=names)
    want = OPS[op](lhs, rhs)
    equal(float(r(at)), float(lhs - rhs), "difference of the sides")
    equal(bool(r.relate(at)), want, f"{L} {op} w at {at}")
    equal(bool(r.relate(np.array(at))), want, f"{L} {op} w at {at}")
