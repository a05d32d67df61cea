"""P25: populations of the genetic algorithm."""

import itertools

import numpy as np

from harness.core import close, equal, flat, nums, ok, raises, st, sub
from sigmaepsilon.math.optimize.ga import Genom
from harness.galab import best_of, better, configs, elite_count, make, objective, valid


def rows(G):
    return [tuple(int(v) for v in r) for r in np.asarray(G)]


def counts(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def contains(big, small):
    b = counts(big)
    return all(b.get(k, 0) >= v for k, v in counts(small).items())


def check_population(case, A, what):
    n = -(-case["nPop"] // 4) * 4
    equal(int(A.nPop), n, f"{what}: size of the population")
    G = np.asarray(A.genotypes)
    equal(G.shape, (n, case["dim"] * case["length"]), f"{what}: shape of the genotypes")
    ok(np.all((G == 0) | (G == 1)), f"{what}: genes other than 0 and 1")
    P = np.asarray(A.phenotypes, dtype=float)
    equal(P.shape, (n, case["dim"]), f"{what}: shape of the phenotypes")
    seen = {}
    for g, p in zip(rows(G), P):
        for d in range(case["dim"]):
            lo, hi = case["ranges"][d]
            k = (p[d] - lo) / (hi - lo) * (2 ** case["length"] - 1)
            ok(-1e-6 < k < 2 ** case["length"] - 1 + 1e-6, f"{what}: {p} is out of range")
            ok(abs(k - round(k)) < 1e-6, f"{what}: {p} is not on the grid")
            code = g[d * case["length"] : (d + 1) * case["length"]]
            key = (d, code)
            equal(seen.setdefault(key, round(k)), round(k), f"{what}: position of {code}")
    f = objective(case)
    equal(np.asarray(A.fitness), np.array([f(p) for p in P]), f"{what}: fitness")
    # different codes are different positions
    for d in range(case["dim"]):
        ks = [v for (dd, _), v in seen.items() if dd == d]
        equal(len(set(ks)), len(ks), f"{what}: number of different positions")


@sub(
    "P25",
    "generations",
    configs().filter(valid),
    "there is an elite",
    nontrivial=lambda c: c["elitism"] is not None,
    quick=900,
    shards=3,
)
def generations(case):
    A, rec = make(case)
    A.evolve(1)
    check_population(case, A, "first generation")
    for gen in range(1, 4):
        fit, prev = np.array(A.fitness), rows(A.genotypes)
        elit, others = A.divide()
        elit, others = [int(i) for i in elit], [int(i) for i in others]
        k = elite_count(case, A.nPop)
        equal(len(elit), k, "size of the elite")
        equal(sorted(elit + others), list(range(A.nPop)), "members of the elite and the others")
        cmp = better(case)
        if elit and others:
            worst = best_of(dict(case, minimize=not case["minimize"]), [fit[i] for i in elit])
            ok(not any(cmp(fit[i], worst) for i in others), "a member is better than the elite")
        best = np.sort(fit)[:k] if case["minimize"] else np.sort(fit)[::-1][:k]
        A.evolve(1)
        w = f"generation {gen}"
        check_population(case, A, w)
        ok(contains(list(A.fitness), list(best)), f"{w}: the elite did not survive")
        now = rows(A.genotypes)
        if case["p_m"] == 0:
            # no new genes at any locus
            for j in range(len(now[0])):
                before = {r[j] for r in prev}
                ok({r[j] for r in now} <= before, f"{w}: a gene from nowhere at {j}")
            if case["p_c"] == 0:
                ok(set(now) <= set(prev), f"{w}: members from nowhere")


@sub(
    "P25",
    "codes",
    st.fixed_dictionaries(
        {
            "dim": st.integers(1, 2),
            "length": st.integers(2, 6),
            "lo": st.integers(-8, 8),
            "w": st.integers(1, 12),
            "extra": st.integers(0, 3),
        }
    ),
    "always",
    quick=60,
)
def codes(case):
    """All codes of the first variable, exhaustively: a one-to-one map onto a uniform grid."""
    from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA

    L, dim = case["length"] + (1 if case["dim"] == 1 else 0), case["dim"]
    lo, hi = case["lo"] / 2, case["lo"] / 2 + case["w"] / 4
    n = 2**L
    ranges = [[lo, hi]] + [[-1.0, 1.0]] * (dim - 1)
    A = BGA(lambda x: float(np.sum(x)), ranges, length=L, nPop=n)
    C = np.array(list(itertools.product([0, 1], repeat=L)))
    G = np.zeros((n, dim * L), dtype=int)
    G[:, :L] = C
    P = A.decode(G)
    close(np.sort(P[:, 0]), np.linspace(lo, hi, n), "decoded values")
    for d in range(1, dim):
        close(P[:, d], np.full(n, -1.0), "the other variables")
    A.genotypes = G
    close(np.asarray(A.phenotypes), P, "phenotypes of new genotypes")
    close(np.asarray(A.fitness), P.sum(axis=1), "fitness of new genotypes")
    A.genotypes = 1 - G
    close(np.sort(np.asarray(A.phenotypes)[:, 0]), np.linspace(lo, hi, n), "phenotypes of the complements")
    close(np.asarray(A.phenotypes)[:, 0] + P[:, 0], np.full(n, lo + hi), "a code and its complement")
    close(np.asarray(A.fitness), np.asarray(A.phenotypes).sum(axis=1), "fitness of the complements")


@sub(
    "P25",
    "operators",
    st.tuples(configs().filter(valid), st.integers(0, 2**16), st.one_of(st.none(), st.integers(1, 4))).map(
        lambda t: dict(t[0], seed2=t[1], nCut=t[2])
    ),
    "parents are different",
    nontrivial=lambda c: c["dim"] * c["length"] > 4,
    quick=900,
)
def operators(case):
    A, _ = make(case, p_c=1, p_m=0)
    n = case["dim"] * case["length"]
    rng = np.random.RandomState(case["seed2"])
    np.random.seed(case["seed2"] + 1)
    p1, p2 = rng.randint(2, size=(2, n))
    q1, q2 = p1.copy(), p2.copy()
    cut = case["nCut"]
    if cut is not None and cut > n - 2:
        cut = None
    for _ in range(3):
        c1, c2 = A.crossover(p1, p2) if cut is None else A.crossover(p1, p2, nCut=cut)
        equal(np.sort(np.array([c1, c2]), axis=0), np.sort(np.array([q1, q2]), axis=0), "genes of the children")
        # segments of the parents, as many as cut
        pattern = [bool(a) for a in (np.asarray(c1) == q1)[q1 != q2]]
        changes = sum(1 for a, b in zip(pattern, pattern[1:]) if a != b)
        if cut is not None:
            ok(changes <= cut, f"{changes} segments with {cut} cuts")
    equal(p1, q1, "first parent")
    equal(p2, q2, "second parent")
    A.set_solution_params(p_m=0)
    equal(np.asarray(A.mutate(p1)), q1, "mutation with zero probability")
    A.set_solution_params(p_m=1)
    equal(np.asarray(A.mutate(p1)), 1 - q1, "mutation with certainty")
    A.set_solution_params(p_m=0.5)
    m = np.asarray(A.mutate(p1))
    ok(m.shape == q1.shape and np.all((m == 0) | (m == 1)), "mutant")
    equal(p1, q1, "the mutated one")
    A.set_solution_params(p_c=0)
    c1, c2 = A.crossover(p1, p2)
    equal(sorted([list(c1), list(c2)]), sorted([list(q1), list(q2)]), "children without crossover")
    # pairing
    G = np.arange(2 * case["nPop"])[:, None] * np.ones((1, 2), dtype=int)
    pairs = [(int(a[0]), int(b[0])) for a, b in A.random_parents_generator(G)]
    equal(sorted(i for p in pairs for i in p), list(range(2 * case["nPop"])), "members of the pairs")


@sub(
    "P25",
    "selection",
    configs().filter(valid),
    "not constant",
    nontrivial=lambda c: c["fnc"] != "constant",
    quick=500,
)
def selection(case):
    A, _ = make(case)
    A.evolve(1)
    fit = np.array(A.fitness)
    G = rows(A.genotypes)
    value = dict(zip(G, fit))
    elit, others = A.divide()
    k = len(elit)
    W = rows(A.select())
    ok(len(W) % 2 == 0 and len(W) >= A.nPop // 2, f"{len(W)} parents")
    if k <= A.nPop // 2:
        equal(len(W), A.nPop // 2, "number of parents")
    ok(set(W) <= set(G), "a parent is not a member of the population")
    ok(contains(W, [G[int(i)] for i in elit]), "the elite is not selected")
    equal(rows(A.genotypes), G, "population, after the selection")
    # a winner of a tournament of three has beaten two others
    rest = counts(W)
    for i in elit:
        rest[G[int(i)]] -= 1
    cmp = better(case)
    m = min(3, len(others))
    for g, c in rest.items():
        if c > 0:
            beaten = sum(1 for j in others if not cmp(fit[int(j)], value[g]))
            ok(beaten >= m, f"a member that can not win a tournament was selected ({value[g]})")


@sub(
    "P25",
    "long",
    st.fixed_dictionaries(
        {
            "dim": st.integers(1, 6),
            "length": st.integers(8, 52),
            "lo": flat(6, nums(-5, 5, 4)),
            "w": flat(6, nums(0.25, 8, 4)),
            "seed": st.integers(0, 2**16),
            "nPop": st.integers(4, 40),
            "rows": st.integers(1, 9),
        }
    ),
    "chromosomes of more than 16 genes",
    nontrivial=lambda c: c["length"] > 16,
    quick=150,
)
def long(case):
    """Long chromosomes: the decoded points follow the weights of the genes."""
    from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA

    L, dim = case["length"], case["dim"]
    ranges = [[lo, lo + w] for lo, w in zip(case["lo"][:dim], case["w"])]
    np.random.seed(case["seed"])
    A = BGA(lambda x: float(np.sum(x)), ranges, length=L, nPop=case["nPop"])
    lo, hi = np.array(ranges).T
    # the weights of the genes, from the codes of single ones
    W = np.zeros((dim, L))
    for d in range(dim):
        for j in range(L):
            g = np.zeros((A.nPop, dim * L), dtype=int)
            g[0, d * L + j] = 1
            P = np.asarray(A.decode(g))
            rest = np.delete(P[0], d)
            close(rest, np.delete(lo, d), "the other variables of a code with a single one", rtol=1e-12)
            close(P[1], lo, "the code of zeros", rtol=1e-12)
            W[d, j] = (P[0, d] - lo[d]) / (hi[d] - lo[d])
        w = np.sort(W[d])
        close(w * (2.0**L - 1), 2.0 ** np.arange(L), "weights of the genes", rtol=2.0 ** (L - 48))
    A.evolve(2)
    for _ in range(2):
        G, P = np.asarray(A.genotypes), np.asarray(A.phenotypes)
        equal(G.shape, (A.nPop, dim * L), "shape of the genotypes")
        e = lo + (hi - lo) * np.einsum("ndl,dl->nd", G.reshape(A.nPop, dim, L), W)
        close(P, e, "decoded points", rtol=1e-9)
        ok(np.all(P >= lo - 1e-9) and np.all(P <= hi + 1e-9), "points are out of range")
        A.genotypes = 1 - G
        close(np.asarray(A.phenotypes), lo + hi - P, "points of the complements", rtol=1e-9)
        # the first generation of long chromosomes has no duplicates and many values
        A.genotypes = G
        A.evolve(1)


GENE = st.fixed_dictionaries(
    {
        "genes": st.lists(st.integers(0, 1), min_size=1, max_size=4),
        "fitness": nums(-2, 2, 2),
        "at": st.lists(nums(-1, 1, 2), min_size=1, max_size=2),
        "age": st.integers(0, 3),
    }
)


@sub(
    "P25",
    "members",
    st.fixed_dictionaries({"a": GENE, "b": GENE, "same": st.booleans()}),
    "different members",
    nontrivial=lambda c: c["a"]["genes"] != c["b"]["genes"],
    quick=150,
)
def members(case):
    """Members are the same if their genes are, and are ordered by fitness."""
    a, b = case["a"], dict(case["b"])
    if case["same"]:
        b["genes"] = list(a["genes"])
    A, B = (Genom(phenotype=x["at"], genotype=x["genes"], fitness=x["fitness"], age=x["age"]) for x in (a, b))
    same = a["genes"] == b["genes"]
    ok(bool(A == B) is same, "equality")
    ok(bool(A != B) is not same, "inequality")
    if same:
        equal(hash(A), hash(B), "hash of the same genes")
        equal(len({A, B}), 1, "a set of equal members")
    ok(not A == 1, "a member equals a number")
    f, g = a["fitness"], b["fitness"]
    ok(bool(A < B) is (f < g) and bool(A > B) is (f > g), "order")
    ok(bool(A <= B) is (f <= g) and bool(A >= B) is (f >= g), "order")
    equal(min([A, B]).fitness, min(f, g), "the least")
    for op in (lambda: A < f, lambda: A > f, lambda: A <= f, lambda: A >= f):
        raises(TypeError, op, "comparison with a number")
