"""P24: the champion of a genetic algorithm is the best point ever evaluated."""

import numpy as np

from harness.core import close, equal, flat, ok, st, sub
from harness.galab import best_of, better, configs, make, objective, symbolic, valid

OPS = st.one_of(
    st.tuples(st.just("evolve"), st.integers(1, 4)),
    st.tuples(st.just("evolve"), st.integers(1, 4)),
    st.tuples(st.just("solve"), st.integers(1, 8)),
    st.tuples(st.just("recycle"), st.integers(1, 12)),
    st.tuples(st.just("reset"), st.just(0)),
    st.tuples(st.just("p_m"), st.sampled_from([0, 0.1, 0.6])),
    st.tuples(st.just("elitism"), st.sampled_from([1, None, 0.5, 2])),
    st.tuples(st.just("look"), st.just(0)),
)


def same_champion(case, A, rec, start, what):
    """All evaluations since `start` belong to the run."""
    calls = rec.calls[start:]
    C = A.champion
    if not calls:
        ok(C is None, f"{what}: there is a champion without evaluations")
        return
    best = best_of(case, [v for _, v in calls])
    equal(float(C.fitness), float(best), f"{what}: fitness of the champion")
    x = np.array(C.phenotype, dtype=float)
    equal(objective(case)(x), float(C.fitness), f"{what}: objective at the champion")
    ok(any(v == best and np.array_equal(x, y) for y, v in calls), f"{what}: champion {x} was never evaluated")
    lo, hi = np.array(case["ranges"]).T
    tol = 1e-9 * (hi - lo)
    ok(np.all(x >= lo - tol) and np.all(x <= hi + tol), f"{what}: champion {x} is out of range")
    equal(list(A.state.x), list(C.phenotype), f"{what}: state.x")
    equal(float(A.state.fun), float(C.fitness), f"{what}: state.fun")
    r = A.state.to_scipy()
    equal(np.asarray(r.x), x, f"{what}: x of the SciPy result")
    equal(float(r.fun), float(C.fitness), f"{what}: fun of the SciPy result")


@sub(
    "P24",
    "history",
    st.tuples(configs().filter(valid), st.lists(OPS, min_size=1, max_size=6)).map(
        lambda t: dict(t[0], ops=[list(o) for o in t[1]])
    ),
    "the champion changes after the first generation",
    nontrivial=lambda c: c["fnc"] != "constant" and len(c["ops"]) > 1,
    quick=1200,
    shards=3,
)
def history(case):
    A, rec = make(case)
    start = 0
    A.evolve(1)
    same_champion(case, A, rec, start, "first generation")
    last = A.champion.fitness
    cmp = better(case)
    for i, (op, n) in enumerate(case["ops"]):
        w = f"operation {i} ({op})"
        if op == "evolve":
            for _ in range(n):
                A.evolve(1)
                same_champion(case, A, rec, start, w)
        elif op == "solve":
            k = len(rec.calls)
            C = A.solve(maxiter=n, miniter=0)
            ok(C is A.champion, f"{w}: solve does not return the champion")
            start, last = k, None
        elif op == "recycle":
            C = A.solve(recycle=True, maxiter=n, miniter=0)
            ok(C is A.champion, f"{w}: solve does not return the champion")
        elif op == "reset":
            ok(A.reset() is A, "reset does not return the object")
            ok(A.champion is None, "champion after a reset")
            ok(A.state.x is None and A.state.fun is None and A.state.n_fev == 0 and A.state.n_iter == 0, "state after a reset")
            start, last = len(rec.calls), None
            continue
        elif op in ("p_m", "elitism"):
            A.set_solution_params(**{op: n})
            equal(getattr(A, op), n, op)
        else:
            b = A.best_candidate()
            equal(float(b.fitness), float(best_of(case, list(A.fitness))), "fitness of the best candidate")
            equal(list(A.best_phenotype()), list(b.phenotype), "best phenotype")
            equal(objective(case)(np.array(b.phenotype)), float(b.fitness), "objective at the best candidate")
        if A.champion is None:
            continue
        same_champion(case, A, rec, start, w)
        if last is not None:
            ok(not cmp(last, A.champion.fitness), f"{w}: the champion got worse")
        last = A.champion.fitness


@sub(
    "P24",
    "symbolic",
    configs(symbolic=True).filter(valid),
    "not constant",
    nontrivial=lambda c: c["fnc"] != "constant",
    quick=250,
)
def check_symbolic(case):
    f = symbolic(case)
    A, _ = make(case, f)
    cmp = better(case)
    last = None
    for _ in range(5):
        A.evolve(1)
        C = A.champion
        x = np.array(C.phenotype, dtype=float)
        close(float(C.fitness), objective(case)(x), "objective at the champion")
        pop = [objective(case)(np.array(p)) for p in A.phenotypes]
        close(np.asarray(A.fitness), np.array(pop), "fitness of the population")
        ok(not cmp(best_of(case, list(A.fitness)), C.fitness), "a member of the population is better than the champion")
        if last is not None:
            ok(not cmp(last, C.fitness), "the champion got worse")
        last = C.fitness


@sub(
    "P24",
    "mirror",
    configs().filter(valid),
    "not constant",
    nontrivial=lambda c: c["fnc"] != "constant",
    quick=250,
)
def mirror(case):
    """Minimizing f is maximizing -f; and runs are reproducible."""
    f = objective(case)
    A, _ = make(case, f, maxiter=6)
    a = A.solve()
    B, _ = make(case, f, maxiter=6)
    b = B.solve()
    equal(list(a.phenotype), list(b.phenotype), "champion of the same run")
    # the fitness of the mirrored champion is a true value of the mirrored problem
    C, _ = make(case, lambda x: -f(x), maxiter=6, minimize=not case["minimize"])
    c = C.solve()
    equal(-f(np.array(c.phenotype)), float(c.fitness), "objective at the mirrored champion")
    cmp = better(case)
    first = np.array(C.phenotypes)
    for p in first:
        ok(not cmp(f(p), -c.fitness), "a member of the population is better than the mirrored champion")
