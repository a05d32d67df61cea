"""P20: coefficients, linearity and substitution against exact polynomial arithmetic."""

from fractions import Fraction

import numpy as np
import sympy as sy

from harness.core import close, equal, flat, nums, nznums, ok, raises, st, sub
from harness.expr import DECLARED, TooLarge, jet, peval, poly, size, to_str, to_text, trees, used
from sigmaepsilon.math.function import Function
from sigmaepsilon.math.function.symutils import coefficients, substitute
from sympy.parsing.sympy_parser import parse_expr

HOWS = ["str", "expr", "symbols"]


@st.composite
def polys(draw, linear=False):
    n = draw(st.integers(1, 4))
    if linear:
        number = st.one_of(nums(-4, 4, 4), st.integers(-2, 2))
        terms = draw(st.lists(st.tuples(st.integers(0, n - 1), number), min_size=0, max_size=5))
        t = draw(number)
        for i, c in terms:
            t = [draw(st.sampled_from(["+", "-"])), t, ["*", c, ["v", i]]]
        k = draw(st.integers(0, 2))
        if k:
            t = ["*", [0, 3, -0.5][k], t]
    else:
        t = draw(trees(n, leaves=6, unary=False))
    return {
        "n": n,
        "tree": t,
        "names": draw(st.permutations(DECLARED))[:n],
        "how": draw(st.sampled_from(HOWS)),
        "real": draw(st.booleans()),
        "normalize": draw(st.booleans()),
        "style": draw(st.sampled_from(["plain", "spaced", "tight"])),
        "x": draw(flat(n, nums(-3, 3, 4))),
    }


def make(case):
    names = list(case["names"])
    style = case.get("style", "plain")
    s = to_str(case["tree"], names) if style == "plain" else to_text(case["tree"], names, style == "tight")
    syms = sy.symbols(names, real=True) if case.get("real") else sy.symbols(names)
    if case["how"] == "str":
        return Function(s, variables=names)
    if case["how"] == "symbols":
        return Function(s, variables=list(syms))
    e = parse_expr(s, local_dict=dict(zip(names, syms)))
    return Function(e, variables=list(syms))


def normal(d, variables):
    """{exponents: coefficient} of the dictionary of coefficients."""
    r = {}
    for key, value in d.items():
        p = sy.Poly(sy.nsimplify(sy.sympify(key) * value, rational=True), *variables)
        for e, c in p.terms():
            c = Fraction(int(c.p), int(c.q))
            if c:
                r[e] = r.get(e, 0) + c
    return {k: v for k, v in r.items() if v}


def same(got, expected, what):
    for k in set(got) | set(expected):
        a, b = got.get(k, 0), expected.get(k, 0)
        if abs(a - b) > 1e-9 * (1 + abs(b)):
            raise AssertionError(f"{what}: {got} instead of {expected}")


@sub(
    "P20",
    "coefficients",
    polys(),
    "more than one term after expansion",
    nontrivial=lambda c: len(poly(c["tree"], c["n"])) > 1,
    quick=500,
    shards=2,
)
def check_coefficients(case):
    f = make(case)
    n = case["n"]
    expected = poly(case["tree"], n)
    vs = list(f.variables)
    d = f.coefficients(normalize=case["normalize"])
    ok(d is not None, "no coefficients")
    same(normal(d, vs), expected, "coefficients")
    for i, v in enumerate(vs):
        ok(v in d, f"no coefficient for variable {v}")
        e = tuple(int(i == j) for j in range(n))
        ok(abs(float(d[v]) - float(expected.get(e, 0))) < 1e-9, f"coefficient of {v}: {d[v]}")
    # one entry for every monomial
    mono = [k for k, v in d.items() if k.free_symbols and v != 0]
    equal(len(mono), len([k for k in expected if any(k)]), "number of monomials")
    if case["normalize"]:
        c = [k for k in d if not k.free_symbols]
        ok(all(k == 1 for k in c), f"constant terms {c}")
        ok(abs(float(sum(d[k] for k in c)) - float(expected.get((0,) * n, 0))) < 1e-9, "constant term")
    # the free function of expanded expressions
    e = sy.expand(f.expr)
    same(normal(coefficients(e, vs, normalize=case["normalize"]), vs), expected, "coefficients of the expression")
    # the part of first degree
    d = f.linear_coefficients(normalize=case["normalize"])
    for i, v in enumerate(vs):
        e = tuple(int(i == j) for j in range(n))
        ok(abs(float(d[v]) - float(expected.get(e, 0))) < 1e-9, f"linear coefficient of {v}: {d[v]}")
    c = sum(float(k) * float(v) for k, v in d.items() if not k.free_symbols)
    ok(abs(c - float(expected.get((0,) * n, 0))) < 1e-9, "constant term of the linear coefficients")
    # linearity
    equal(bool(f.is_linear), all(max(k) <= 1 for k in expected), "linearity")


@sub(
    "P20",
    "linear",
    polys(linear=True),
    "more than one variable with a nonzero coefficient",
    nontrivial=lambda c: len(poly(c["tree"], c["n"])) > 1,
    quick=300,
)
def check_linear(case):
    f = make(case)
    n = case["n"]
    expected = poly(case["tree"], n)
    ok(f.is_linear is True, "a linear function is not linear")
    d = f.linear_coefficients(normalize=case["normalize"])
    ok(d is not None, "no coefficients")
    for i, v in enumerate(f.variables):
        e = tuple(int(i == j) for j in range(n))
        ok(abs(float(d[v]) - float(expected.get(e, 0))) < 1e-9, f"coefficient of {v}: {d[v]}")
    c = sum(float(k) * float(v) for k, v in d.items() if not k.free_symbols)
    ok(abs(c - float(expected.get((0,) * n, 0))) < 1e-9, "constant term")
    # the coefficients reproduce the function
    x = case["x"]
    val = c + sum(float(d[v]) * xi for v, xi in zip(f.variables, x))
    close(float(f(x)), val, "value from the coefficients")
    close(np.asarray(f.g(x), dtype=float), np.array([float(d[v]) for v in f.variables]), "gradient")


@st.composite
def scaled(draw):
    n = draw(st.integers(1, 4))
    expo = st.lists(st.integers(0, 2), min_size=n, max_size=n).map(tuple)
    exps = draw(st.lists(expo, min_size=1, max_size=5, unique=True))
    return {
        "n": n,
        "exps": [list(e) for e in exps],
        "coeffs": draw(flat(len(exps), st.builds(lambda c, m: c * 10.0**m, nznums(0.25, 9, 4), st.integers(-15, 15)))),
        "names": draw(st.permutations(DECLARED))[:n],
        "how": draw(st.sampled_from(HOWS)),
        "real": draw(st.booleans()),
        "normalize": draw(st.booleans()),
    }


@sub(
    "P20",
    "scales",
    scaled(),
    "the magnitudes of two coefficients differ by more than 1e6",
    nontrivial=lambda c: max(map(abs, c["coeffs"])) > 1e6 * min(map(abs, c["coeffs"])),
    quick=200,
)
def check_scales(case):
    """Coefficients of distinct monomials, of any magnitude, come back as they were given."""
    names, n = list(case["names"]), case["n"]
    expected = {tuple(e): float(c) for e, c in zip(case["exps"], case["coeffs"])}
    s = " + ".join("*".join([f"({c!r})"] + [f"{v}**{k}" for v, k in zip(names, e) if k]) for e, c in expected.items())
    syms = sy.symbols(names, real=True) if case["real"] else sy.symbols(names)
    if case["how"] == "str":
        f = Function(s, variables=names)
    elif case["how"] == "symbols":
        f = Function(s, variables=list(syms))
    else:
        f = Function(parse_expr(s, local_dict=dict(zip(names, syms))), variables=list(syms))
    vs = list(f.variables)
    linear = all(max(e) <= 1 for e in expected)
    equal(bool(f.is_linear), linear, "linearity")
    found = [f.coefficients(normalize=case["normalize"]), coefficients(sy.expand(f.expr), vs, normalize=case["normalize"])]
    if all(sum(e) <= 1 for e in expected):
        found.append(f.linear_coefficients(normalize=case["normalize"]))
    for d in found:
        got = {}
        for k, v in d.items():
            for e, c in sy.Poly(sy.sympify(k) * v, *vs).terms():
                got[e] = got.get(e, 0.0) + float(c)
        for e in set(got) | set(expected):
            a, b = got.get(e, 0.0), expected.get(e, 0.0)
            ok(abs(a - b) <= 1e-9 * abs(b), f"coefficient of {dict(zip(names, e))}: {a!r} instead of {b!r} in {s}")


FACTORS = {"1": 1.0, "sqrt(2)": np.sqrt(2), "pi": np.pi, "sqrt(3)/2": np.sqrt(3) / 2, "cos(1)": np.cos(1.0), "2**(1/3)": 2 ** (1 / 3)}


@st.composite
def irrationals(draw):
    n = draw(st.integers(1, 3))
    return {
        "n": n,
        # multiple, irrational factor, exponents
        "terms": [
            [draw(st.integers(-4, 4)), draw(st.sampled_from(sorted(FACTORS))), [0] * n if draw(st.booleans()) else draw(flat(n, st.integers(0, 2)))]
            for _ in range(draw(st.integers(1, 6)))
        ],
        "names": draw(st.permutations(DECLARED))[:n],
        "symbols": draw(st.booleans()),
        "normalize": draw(st.booleans()),
    }


@sub(
    "P20",
    "irrational",
    irrationals(),
    "an irrational constant and another one",
    nontrivial=lambda c: len({f for m, f, e in c["terms"] if m and not any(e)}) > 1,
    quick=150,
)
def check_irrational(case):
    """Constants and coefficients which are no rational numbers."""
    names, n = list(case["names"]), case["n"]
    expected = {}
    for m, f, e in case["terms"]:
        expected[tuple(e)] = expected.get(tuple(e), 0.0) + m * FACTORS[f]
    s = " + ".join("*".join([f"({m})*({f})"] + [f"{v}**{k}" for v, k in zip(names, e) if k]) for m, f, e in case["terms"])
    f = Function(s, variables=list(sy.symbols(names)) if case["symbols"] else names)
    vs = list(f.variables)
    found = [f.coefficients(normalize=case["normalize"]), coefficients(sy.expand(f.expr), vs, normalize=case["normalize"])]
    if all(sum(e) <= 1 for e in expected):
        found.append(f.linear_coefficients(normalize=case["normalize"]))
    for k, d in enumerate(found):
        got = {}
        for key, v in d.items():
            for e, c in sy.Poly(sy.sympify(key) * v, *vs).terms():
                got[e] = got.get(e, 0.0) + float(c)
        for e in set(got) | set(expected):
            a, b = got.get(e, 0.0), expected.get(e, 0.0)
            ok(abs(a - b) <= 1e-9, f"coefficient of {dict(zip(names, e))}: {a!r} instead of {b!r} in {s}")
        if case["normalize"]:
            c = [key for key in d if not key.free_symbols]
            ok(all(key == 1 for key in c), f"constant terms {c} in the normalized coefficients of {s}")
        if k != 1:
            # the coefficients of the variables are numbers
            for i, v in enumerate(vs):
                e = tuple(int(i == j) for j in range(n))
                ok(abs(float(d[v]) - expected.get(e, 0.0)) <= 1e-9, f"coefficient of {v}: {d[v]} in {s}")


@sub(
    "P20",
    "nonlinear",
    st.fixed_dictionaries(
        {
            "n": st.integers(1, 3),
            "lin": flat(4, nums(-3, 3, 4)),
            "i": st.integers(0, 2),
            "j": st.integers(0, 2),
            "term": st.sampled_from(["sin(A)", "exp(A)", "A**3", "1/(2 + A**2)", "sqrt(1 + A**2)", "A**2*B", "log(2 + B**2)"]),
            "names": st.permutations(DECLARED).map(lambda p: p[:3]),
            "extra": st.booleans(),
        }
    ),
    "always",
    quick=150,
)
def check_nonlinear(case):
    n, names = case["n"], list(case["names"])
    A, B = names[case["i"] % n], names[case["j"] % n]
    s = " + ".join(f"({c})*{v}" for c, v in zip(case["lin"], names[:n]))
    s += " + " + case["term"].replace("A", A).replace("B", B)
    vs = names if case["extra"] else names[:n]
    f = Function(s, variables=vs)
    ok(f.is_linear is False, f"{s} is linear")
    # ... but it is linear in the rest of the variables
    rest = [v for v in vs if v not in (A, B)]
    if rest:
        g = f.subs([0.5] * len(set((A, B))), sorted({A, B}))
        ok(g.is_linear is True, f"{s} is not linear in {rest}")


@st.composite
def substitutions(draw):
    c = draw(polys())
    if draw(st.booleans()):
        c["tree"] = draw(trees(c["n"], leaves=5))
    n = c["n"]
    c["which"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    c["values"] = draw(
        st.lists(
            st.one_of(
                nums(-2, 2, 4),
                st.sampled_from(["swap", "new", "double"]),
            ),
            min_size=n,
            max_size=n,
        )
    )
    c["byname"] = draw(st.booleans())
    c["inplace"] = draw(st.booleans())
    c["all"] = draw(st.booleans())
    c["xnew"] = draw(nums(-2, 2, 4))
    return c


@sub(
    "P20",
    "substitution",
    substitutions(),
    "a part of the variables is replaced, or an expression is substituted",
    nontrivial=lambda c: len(c["which"]) < c["n"] or any(isinstance(v, str) for v in c["values"]),
    quick=400,
    shards=2,
)
def check_substitution(case):
    f = make(case)
    n, x = case["n"], case["x"]
    vs = list(f.variables)
    which = list(range(n)) if case["all"] else case["which"]
    new = sy.Symbol("qq")
    values, full = [], list(x)
    for i in which:
        v = case["values"][i]
        j = which[(which.index(i) + 1) % len(which)]
        if v == "swap":
            values.append(vs[j])
            full[i] = x[j]
        elif v == "double":
            values.append(2 * vs[j])
            full[i] = 2 * x[j]
        elif v == "new":
            values.append(new)
            full[i] = case["xnew"]
        else:
            values.append(v)
            full[i] = v
    try:
        J = jet(case["tree"], full)
        J0 = jet(case["tree"], x)
    except TooLarge:
        return
    names = None if case["all"] else [str(vs[i]) if case["byname"] else vs[i] for i in which]
    before = f.expr
    g = f.subs(values, inplace=case["inplace"]) if names is None else f.subs(values, names, inplace=case["inplace"])
    ok((g is f) == case["inplace"], "in-place substitution")
    env = dict(zip([str(v) for v in vs], x))
    env["qq"] = case["xnew"]
    arg = [env[str(v)] for v in g.variables]
    scale = 1 + abs(J.v)
    close(float(g(arg)), J.v, "value after the substitution", rtol=1e-7, atol=1e-8, scale=scale)
    # variables that were replaced are not variables any more
    remaining = [str(v) for i, v in enumerate(vs) if i not in which]
    if remaining:
        equal([str(v) for v in g.variables if str(v) in remaining], remaining, "remaining variables")
        numeric = not any(isinstance(case["values"][i], str) for i in which)
        if numeric:
            equal([str(v) for v in g.variables], remaining, "variables")
            close(np.asarray(g.g(arg), dtype=float), J.g[[i for i in range(n) if i not in which]], "gradient", rtol=1e-7, atol=1e-8, scale=1 + np.abs(J.g).max())
    if not case["inplace"]:
        ok(f.expr == before and list(f.variables) == vs, "the original has changed")
        close(float(f(x)), J0.v, "value of the original", rtol=1e-7, atol=1e-8)
    # the free function
    e = substitute(before, values, [vs[i] for i in which])
    val = e.subs([(s, env.get(str(s))) for s in e.free_symbols])
    close(float(val), J.v, "value of the expression after the substitution", rtol=1e-7, atol=1e-8, scale=scale)
