"""P16: pseudo-peripheral nodes."""

from harness.core import equal, ok, sub
from harness.core import st
from harness.props.p15 import adjacency, graph_of, graphs, levels, neighbours
from sigmaepsilon.math.graph import pseudo_peripheral_nodes


def run(case):
    if case["how"] == "graph":
        r = graph_of(case).pseudo_peripheral_nodes()
    else:
        r = pseudo_peripheral_nodes(adjacency(case))
    return [int(i) for i in r]


@st.composite
def sparse(draw, nmax=30):
    """Connected or nearly connected graphs with a few cycles: a random tree and chords."""
    n = draw(st.integers(6, nmax))
    near = draw(st.integers(1, 6))
    E = {(max(0, i - 1 - draw(st.integers(0, near))), i) for i in range(1, n)}
    for _ in range(draw(st.integers(0, 6))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        E.add((min(i, j), max(i, j)))
    return {
        "n": n,
        "edges": [list(e) for e in sorted(E) if e[0] != e[1]],
        "perm": draw(st.permutations(range(n))),
        "root": 0,
        "weights": None,
        "how": draw(st.sampled_from(["graph", "csr"])),
    }


def width(lv):
    return max(len(x) for x in lv)


@sub(
    "P16",
    "peripheral",
    st.one_of(graphs(), sparse()),
    "the first node is not peripheral",
    nontrivial=lambda c: len(levels(neighbours(c), 0))
    < max(len(levels(neighbours(c), i)) for i in range(c["n"])),
    quick=1600,
    shards=3,
)
def peripheral(case):
    check(case)


def check(case):
    adj = neighbours(case)
    res = run(case)
    first = levels(adj, 0)
    comp = {i for lv in first for i in lv}
    S = set(res)
    ok(S <= comp, f"nodes {sorted(S - comp)} are not connected to the first one")
    L = {i: levels(adj, i) for i in S}
    if len(comp) > 1:
        equal(len(res), len(S), "number of different nodes in the result")
    # all of them have the same eccentricity, at least that of the starting node
    ecc = {len(L[i]) for i in S}
    equal(len(ecc), 1, "number of different eccentricities")
    ok(ecc.pop() >= len(first), "nodes are less eccentric than the starting node")
    # one of them is the root of a level structure that ends with the others
    roots = [i for i in S if set(L[i][-1]) | {i} == S]
    ok(roots, f"no node of {sorted(S)} has the others as its last level")
    ok(
        any(all(width(L[j]) >= width(L[i]) for j in S) for i in roots),
        "a narrower level structure of the same depth was ignored",
    )


@sub(
    "P16",
    "trees",
    graphs(shapes=("tree", "path", "star")),
    "at least four nodes",
    nontrivial=lambda c: c["n"] >= 4,
    quick=300,
)
def trees(case):
    adj = neighbours(case)
    if len([1 for i in adj for j in adj[i]]) != 2 * (case["n"] - 1):
        return  # a path with chords
    diameter = max(len(levels(adj, i)) for i in adj)
    for i in run(case):
        equal(len(levels(adj, i)), diameter, f"levels of node {i} of a tree")


def large_of(case):
    """Long graphs of many nodes, made of a few numbers; the first node is in the middle."""
    n, near, a, kind = case["n"], case["near"], case["a"], case["kind"]
    m = max(2, int(n**0.5))
    h = [(i * i * 31 + i * a) % 10007 for i in range(2 * n)]
    if kind == "grid":
        E = {(i, i + 1) for i in range(n - 1) if (i + 1) % m} | {(i, i + m) for i in range(n - m)}
        E -= {e for e in E if h[e[0]] % 7 == 0}
    elif kind == "bush":
        # a hub, the nodes around it, and leaves joined to one or two of these
        k = 2 + a % 30
        E = {(0, i) for i in range(1, min(k, n))}
        for i in range(k, n):
            E |= {(1 + h[i] % (k - 1), i)} | ({(1 + h[n + i] % (k - 1), i)} if h[i] % near else set())
    else:
        E = {(max(0, i - 1 - h[i] % near), i) for i in range(1, n)}
        if kind == "chords":
            E |= {(max(0, i - 1 - h[n + i] % (3 * near)), i) for i in range(1, n) if h[i] % 5 == 0}
    start = n // 2 if case["middle"] and kind != "bush" else 0
    return {
        "n": n,
        "edges": [list(e) for e in sorted(E)],
        "perm": [(i - start) % n for i in range(n)],
        "weights": None,
        "root": 0,
        "how": case["how"],
    }


@sub(
    "P16",
    "large",
    st.fixed_dictionaries(
        {
            "n": st.integers(40, 300),
            "near": st.integers(1, 9),
            "a": st.integers(0, 10**5),
            "kind": st.sampled_from(["tree", "chords", "grid", "bush"]),
            "middle": st.booleans(),
            "how": st.sampled_from(["graph", "csr"]),
        }
    ),
    "more than 100 nodes",
    nontrivial=lambda c: c["n"] > 100,
    quick=150,
)
def large(case):
    check(large_of(case))
