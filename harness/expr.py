"""
Expressions as plain data, with an independent evaluation of the value, the gradient and
the Hessian: second order jets, propagated through the operations with the chain rule.

Nodes: number, ["v", i], [binary, a, b], [unary, a], ["pow", a, n]
"""

import math

import numpy as np

from harness.core import st

NAMES = ["x", "y", "z", "u1", "w_2", "k10"]
# known to SymPy too; these have to be declared
DECLARED = NAMES + ["E", "I", "S", "N", "Q", "beta", "gamma"]
CONST = st.one_of(st.integers(-4, 4), st.integers(-16, 16).map(lambda i: i / 4))
EVEN = ["root", "root3", "root6", "logsq", "expl"]
UNARY = ["sin", "cos", "exp", "sqrt", "log", "neg", "atan"]


def trees(nvar, leaves=6, unary=True):
    leaf = st.one_of(st.integers(0, nvar - 1).map(lambda i: ["v", i]), CONST)

    def extend(s):
        opts = [
            st.tuples(st.sampled_from(["+", "-", "*"]), s, s).map(list),
            st.tuples(st.just("pow"), s, st.integers(2, 3)).map(list),
        ]
        if unary:
            opts.append(st.tuples(st.just("/"), s, s).map(list))
            opts.append(st.tuples(st.sampled_from(UNARY), s).map(list))
        return st.one_of(*opts)

    return st.recursive(leaf, extend, max_leaves=leaves)


def used(t):
    if isinstance(t, (int, float)):
        return set()
    if t[0] == "v":
        return {t[1]}
    r = set()
    for a in t[1:]:
        if isinstance(a, list):
            r |= used(a)
    return r


def size(t):
    if isinstance(t, (int, float)) or t[0] == "v":
        return 1
    return 1 + sum(size(a) for a in t[1:] if isinstance(a, list))


def to_str(t, names):
    """Denominators, radicands and arguments of logarithms are made positive."""
    if isinstance(t, (int, float)):
        return f"({t})"
    o = t[0]
    if o == "v":
        return names[t[1]]
    a = to_str(t[1], names)
    if o in "+-*":
        return f"({a} {o} {to_str(t[2], names)})"
    if o == "/":
        return f"({a} / (2 + ({to_str(t[2], names)})**2))"
    if o == "pow":
        return f"({a})**{t[2]}"
    return {
        "sin": f"sin({a})",
        "cos": f"cos({a})",
        "atan": f"atan({a})",
        "exp": f"exp(({a})/4)",
        "sqrt": f"sqrt(1 + ({a})**2)",
        "log": f"log(2 + ({a})**2)",
        "neg": f"(-({a}))",
        # even functions of the argument, positive wherever it is not zero
        "root": f"sqrt(({a})**2)",
        "root3": f"(({a})**2)**(3/2)",
        "root6": f"sqrt(({a})**6)",
        "logsq": f"log(({a})**2)",
        "expl": f"exp(log(({a})**2)/2)",
    }[o]


def to_text(t, names, tight=False):
    """The same expression, with the parentheses the rules of precedence ask for and no more."""
    r = _text(t, names)[0]
    return r.replace(" ", "") if tight else r


def _text(t, names):
    """Text and precedence: 0 leading sign, 1 sum, 2 product, 3 power, 4 the rest"""

    def at_least(u, p):
        s, q = _text(u, names)
        return s if q >= p else f"({s})"

    if isinstance(t, (int, float)):
        # as people write them
        v = int(t) if t == int(t) and isinstance(t, float) else t
        return str(v), (0 if v < 0 else 4)
    o = t[0]
    if o == "v":
        return names[t[1]], 4
    if o in "+-":
        # the sum starts with a sign if its first term does
        s, q = _text(t[1], names)
        return f"{s} {o} {at_least(t[2], 2)}", (0 if q == 0 else 1)
    if o == "*":
        return f"{at_least(t[1], 2)} * {at_least(t[2], 3)}", 2
    if o == "/":
        return f"{at_least(t[1], 2)} / (2 + {at_least(t[2], 4)}**2)", 2
    if o == "pow":
        return f"{at_least(t[1], 4)}**{t[2]}", 3
    if o == "neg":
        return f"-{at_least(t[1], 2)}", 0
    return to_str(t, names), 4 if not to_str(t, names).startswith("((") else 2


class Jet:
    __slots__ = ("v", "g", "H")

    def __init__(self, v, g, H):
        self.v, self.g, self.H = v, g, H

    def f(self, v, d, dd):
        """Chain rule."""
        return Jet(v, d * self.g, d * self.H + dd * np.outer(self.g, self.g))

    def __add__(self, o):
        return Jet(self.v + o.v, self.g + o.g, self.H + o.H)

    def __sub__(self, o):
        return Jet(self.v - o.v, self.g - o.g, self.H - o.H)

    def __mul__(self, o):
        c = np.outer(self.g, o.g)
        return Jet(self.v * o.v, self.v * o.g + o.v * self.g, self.v * o.H + o.v * self.H + c + c.T)


def const(c, n):
    return Jet(float(c), np.zeros(n), np.zeros((n, n)))


class TooLarge(Exception):
    pass


def jet(t, x):
    """x: a list of values"""
    n = len(x)
    r = _jet(t, x, n)
    m = max(abs(r.v), np.max(np.abs(r.g), initial=0), np.max(np.abs(r.H), initial=0))
    if not m < 1e6:
        raise TooLarge
    return r


def _jet(t, x, n):
    if isinstance(t, (int, float)):
        return const(t, n)
    o = t[0]
    if o == "v":
        g = np.zeros(n)
        g[t[1]] = 1
        return Jet(float(x[t[1]]), g, np.zeros((n, n)))
    a = jet(t[1], x)
    v = a.v
    if o == "+":
        return a + jet(t[2], x)
    if o == "-":
        return a - jet(t[2], x)
    if o == "*":
        return a * jet(t[2], x)
    if o == "/":
        b = jet(t[2], x)
        b = b * b + const(2, n)
        return a * b.f(1 / b.v, -1 / b.v**2, 2 / b.v**3)
    if o == "pow":
        k = t[2]
        return a.f(v**k, k * v ** (k - 1), k * (k - 1) * v ** (k - 2))
    if o == "sin":
        return a.f(math.sin(v), math.cos(v), -math.sin(v))
    if o == "cos":
        return a.f(math.cos(v), -math.sin(v), -math.cos(v))
    if o == "atan":
        d = 1 + v * v
        return a.f(math.atan(v), 1 / d, -2 * v / d**2)
    if o == "exp":
        if v > 50:
            raise TooLarge
        e = math.exp(v / 4)
        return a.f(e, e / 4, e / 16)
    if o == "sqrt":
        b = a * a + const(1, n)
        s = math.sqrt(b.v)
        return b.f(s, 0.5 / s, -0.25 / s**3)
    if o == "log":
        b = a * a + const(2, n)
        return b.f(math.log(b.v), 1 / b.v, -1 / b.v**2)
    if o == "neg":
        return const(0, n) - a
    if o in EVEN:
        if abs(v) < 0.05:
            raise TooLarge  # the derivatives do not exist at zero
        w = math.copysign(1.0, v)
        if o in ("root", "expl"):
            return a.f(abs(v), w, 0.0)
        if o in ("root3", "root6"):
            return a.f(abs(v) ** 3, 3 * w * v * v, 6 * abs(v))
        return a.f(2 * math.log(abs(v)), 2 / v, -2 / v**2)
    raise ValueError(o)


def poly(t, n):
    """Expands a polynomial tree to {exponents: Fraction}, independently of SymPy."""
    from fractions import Fraction

    if isinstance(t, (int, float)):
        c = Fraction(t)
        return {(0,) * n: c} if c else {}
    if t[0] == "v":
        e = [0] * n
        e[t[1]] = 1
        return {tuple(e): Fraction(1)}
    if t[0] == "neg":
        return {k: -v for k, v in poly(t[1], n).items()}
    a = poly(t[1], n)
    if t[0] == "pow":
        r = {(0,) * n: Fraction(1)}
        for _ in range(t[2]):
            r = _mul(r, a)
        return r
    b = poly(t[2], n)
    if t[0] == "*":
        return _mul(a, b)
    s = 1 if t[0] == "+" else -1
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def _mul(a, b):
    r = {}
    for k, v in a.items():
        for m, w in b.items():
            e = tuple(i + j for i, j in zip(k, m))
            r[e] = r.get(e, 0) + v * w
    return {k: v for k, v in r.items() if v}


def peval(p, x):
    """Exact value of an expanded polynomial."""
    from fractions import Fraction

    s = Fraction(0)
    for k, v in p.items():
        m = Fraction(v)
        for xi, e in zip(x, k):
            m *= Fraction(xi) ** e
        s += m
    return s
