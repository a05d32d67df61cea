"""P15/P16 share the generator of graphs: P15 compares level structures with a BFS."""

import numpy as np
from scipy.sparse import csr_matrix as sp_csr

from harness.core import equal, ok, st, sub
from sigmaepsilon.math.graph import Graph, pseudo_peripheral_nodes, rooted_level_structure  # noqa
from sigmaepsilon.math.linalg.sparse import csr_matrix

SHAPES = ["random", "path", "cycle", "grid", "star", "tree", "empty", "parts"]


def edges_of(shape, n, xs):
    xs = list(xs)
    m = len(xs)
    E = set()
    if shape == "path":
        E = {(i, i + 1) for i in range(n - 1)}
    elif shape == "cycle":
        E = {(i, (i + 1) % n) for i in range(n)}
    elif shape == "grid":
        w = 1 + (xs[0] if m else 2) % 5
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                E.add((i, i + 1))
            if i + w < n:
                E.add((i, i + w))
    elif shape == "star":
        c = (xs[0] if m else 0) % n
        E = {(c, i) for i in range(n) if i != c}
    elif shape == "tree":
        for i in range(1, n):
            E.add((xs[i % m] % i if m else 0, i))
    elif shape == "parts":
        cut = (xs[0] % n) if m else n // 2
        E = {(i, i + 1) for i in range(n - 1) if i + 1 != cut}
    if shape in ("random", "parts", "path", "tree"):
        extra = xs if shape == "random" else xs[2:4]
        for x in extra:
            i, j = (x * 7 + 3) % n, (x // n) % n
            if shape == "parts":
                # no edges between the two parts
                if (i < cut) != (j < cut):
                    continue
            if shape == "tree":
                continue
            E.add((i, j))
    return sorted({tuple(sorted(e)) for e in E if e[0] != e[1] or shape == "random"})


@st.composite
def graphs(draw, shapes=tuple(SHAPES), nmax=24):
    n = draw(st.integers(1, nmax))
    shape = draw(st.sampled_from(list(shapes)))
    xs = draw(st.lists(st.integers(0, 999), max_size=2 * n))
    return {
        "n": n,
        "edges": [list(e) for e in edges_of(shape, n, xs)],
        "perm": draw(st.permutations(range(n))),
        "root": draw(st.integers(0, n - 1)),
        "weights": draw(st.sampled_from([None, None, "int", "float"])),
        "how": draw(st.sampled_from(["graph", "csr", "scipy"])),
    }


def neighbours(case):
    """Adjacency of the *indices* of nodes, after the relabelling."""
    p = case["perm"]
    adj = {i: set() for i in range(case["n"])}
    for i, j in case["edges"]:
        adj[p[i]].add(p[j])
        adj[p[j]].add(p[i])
    return adj


def levels(adj, root):
    seen, front, res = {root}, [root], []
    while front:
        res.append(sorted(front))
        nxt = sorted({j for i in front for j in adj[i]} - seen)
        seen.update(nxt)
        front = nxt
    return res


def dense_of(case):
    n = case["n"]
    A = np.zeros((n, n))
    p = case["perm"]
    for k, (i, j) in enumerate(case["edges"]):
        w = {None: 1, "int": k + 1, "float": 0.25 * (k + 1)}[case["weights"]]
        A[p[i], p[j]] = A[p[j], p[i]] = w
    return A


def graph_of(case):
    """The nodes are inserted in the order of their indices but labelled otherwise."""
    n, p = case["n"], case["perm"]
    inv = {v: k for k, v in enumerate(p)}
    G = Graph()
    G.add_nodes_from([inv[i] for i in range(n)])
    A = dense_of(case)
    for i, j in case["edges"]:
        if case["weights"] is None:
            G.add_edge(i, j)
        else:
            G.add_edge(i, j, weight=A[p[i], p[j]])
    return G


def adjacency(case):
    how = case["how"]
    if how == "csr":
        return csr_matrix(sp_csr(dense_of(case)))
    if how == "scipy":
        return csr_matrix(graph_of(case).adjacency_matrix())
    return graph_of(case).adjacency_matrix(to_csr=True)


@sub(
    "P15",
    "levels",
    graphs(),
    "at least three levels",
    nontrivial=lambda c: len(levels(neighbours(c), c["root"])) >= 3,
    quick=600,
    shards=2,
)
def check_levels(case):
    adj = neighbours(case)
    root = case["root"]
    expected = levels(adj, root)
    if case["how"] == "graph":
        rls = graph_of(case).rooted_level_structure(root)
    else:
        rls = rooted_level_structure(adjacency(case), root)
    got = {int(k): sorted(int(i) for i in v) for k, v in rls.items()}
    equal(got, dict(enumerate(expected)), "levels")
    if root == 0:
        d = rooted_level_structure(adjacency(case))
        equal({int(k): sorted(int(i) for i in v) for k, v in d.items()}, got, "default root")


@sub(
    "P15",
    "adjacency",
    graphs(nmax=10),
    "has edges",
    nontrivial=lambda c: len(c["edges"]) > 0,
    quick=200,
)
def check_adjacency(case):
    A = dense_of(case)
    G = graph_of(case)
    equal(np.asarray(G.adjacency_matrix().todense(), dtype=float), A, "adjacency matrix")
    C = adjacency(case)
    ok(isinstance(C, csr_matrix), "adjacency matrix is not a csr_matrix")
    adj = neighbours(case)
    for i in range(case["n"]):
        equal(sorted(int(j) for j in C.irow(i)), sorted(adj[i]), f"neighbours of {i}")
        equal([float(x) for x in C.row(i)], [A[i, int(j)] for j in C.irow(i)], f"weights of {i}")


@sub(
    "P15",
    "large",
    st.fixed_dictionaries(
        {
            "shape": st.sampled_from(["star", "tree", "random", "grid", "path", "wheel", "dense"]),
            "n": st.integers(30, 400),
            "a": st.integers(1, 40),
            "b": st.integers(0, 10**6),
            "step": st.sampled_from([1, 7, 11, 13]),
            "root": st.integers(0, 399),
            "how": st.sampled_from(["graph", "csr"]),
        }
    ),
    "more than 64 nodes",
    nontrivial=lambda c: c["n"] > 64,
    quick=100,
    shards=2,
)
def large(case):
    """Larger graphs, made of a few numbers: many neighbours, many levels."""
    n, a, b = case["n"], case["a"], case["b"]
    while np.gcd(case["step"], n) != 1:
        n += 1
    k = case["shape"]
    if k == "star":
        E = [(0, i) for i in range(1, n)]
    elif k == "wheel":
        E = [(0, i) for i in range(1, n - a % 20)] + [(i, i + 1) for i in range(1, n - 1)]
    elif k == "tree":
        E = [((i * b + a) % max(1, min(i, a)) + max(0, i - a), i) for i in range(1, n)]
        E = [(p % i, i) for p, i in E]
    elif k == "path":
        E = [(i, i + 1) for i in range(n - 1)] + [(i, (i + a) % n) for i in range(0, n, 1 + b % 50)]
    elif k == "grid":
        w = a + 1
        E = [(i, i + 1) for i in range(n - 1) if (i + 1) % w] + [(i, i + w) for i in range(n - w)]
    elif k == "dense":
        m = min(n, 90)
        E = [(i, j) for i in range(m) for j in range(i) if (i * j + b) % (1 + a % 4) == 0] + [(i - 1, i) for i in range(m, n)]
    else:
        r = np.random.RandomState(b)
        E = [tuple(int(v) for v in r.randint(0, n, 2)) for _ in range(n + a)]
    edges = sorted({tuple(sorted(e)) for e in E})
    perm = [(i * case["step"] + 5) % n for i in range(n)]
    c = {"n": n, "edges": edges, "perm": perm, "root": case["root"] % n, "weights": None, "how": case["how"]}
    adj = neighbours(c)
    expected = dict(enumerate(levels(adj, c["root"])))
    rls = graph_of(c).rooted_level_structure(c["root"]) if c["how"] == "graph" else rooted_level_structure(adjacency(c), c["root"])
    got = {int(k): sorted(int(i) for i in v) for k, v in rls.items()}
    equal(got, expected, "levels")
