"""P26: accounting and termination of genetic algorithms."""

import numpy as np

from harness.core import close, equal, ok, raises, st, sub
from harness.galab import best_of, better, configs, make, objective, symbolic, valid
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA

LIMITS = st.tuples(st.integers(0, 12), st.integers(0, 12)).map(lambda t: [min(t), max(max(t), 1)])


def simulate(case, calls, nPop, miniter, maxiter, maxage, champion=None, age=0, n0=0):
    """Replays the termination on the record of the evaluations."""
    cmp = better(case)
    n = n0
    for k in range(0, len(calls), nPop):
        best = best_of(case, [v for _, v in calls[k : k + nPop]])
        if champion is None or cmp(best, champion):
            champion, age = best, 0
        age += 1
        n += 1
        if n >= miniter and (age > maxage or n >= maxiter):
            return n, champion, age, (len(calls) == k + nPop)
    return None, champion, age, False


@sub(
    "P26",
    "termination",
    st.tuples(configs().filter(valid), LIMITS, LIMITS, st.booleans()).map(
        lambda t: dict(t[0], limits=t[1], again=t[2], by_solve=t[3])
    ),
    "more than one iteration is allowed",
    nontrivial=lambda c: c["limits"][1] > 1,
    quick=1200,
    shards=3,
)
def termination(case):
    mn, mx = case["limits"]
    if case["by_solve"]:
        A, rec = make(case)
        A.solve(miniter=mn, maxiter=mx)
    else:
        A, rec = make(case, miniter=mn, maxiter=mx)
        A.solve()
    N = int(A.nPop)

    def check(calls, what, n0=0, champion=None, age=0, lim=(mn, mx), total=None):
        equal(int(A.state.n_fev), len(total), f"{what}: number of evaluations")
        equal(len(calls) % N, 0, f"{what}: evaluations beyond whole generations")
        n, champion, age, exact = simulate(case, calls, N, lim[0], lim[1], case["maxage"], champion, age, n0)
        ok(n is not None, f"{what}: terminated early")
        ok(exact, f"{what}: did not terminate after {n} iterations")
        equal(int(A.state.n_iter), n, f"{what}: number of iterations")
        equal(int(A.champion.age), age, f"{what}: age of the champion")
        ok(n <= max(lim[1], n0 + 1) and n >= lim[0], f"{what}: {n} iterations")
        ok(A.state.success is True, f"{what}: success")
        status = 1 if n >= lim[1] else 2
        equal(int(A.state.stage), status, f"{what}: status")
        r = A.state.to_scipy()
        equal((int(r.nit), int(r.nfev), int(r.status), bool(r.success)), (n, len(total), status, True), f"{what}: SciPy result")
        ok(r.fun is not None and float(r.fun) == float(A.champion.fitness), f"{what}: value {r.fun} in the SciPy result instead of {A.champion.fitness}")
        equal(np.asarray(r.x), np.asarray(A.champion.phenotype), f"{what}: point in the SciPy result")
        equal((int(r.njev), int(r.nhev)), (0, 0), f"{what}: evaluations of derivatives")
        return n, champion, age

    n, champion, age = check(rec.calls, "solution", total=rec.calls)
    # continued
    k = len(rec.calls)
    mn2, mx2 = case["again"]
    A.solve(recycle=True, miniter=mn2, maxiter=mx2)
    check(rec.calls[k:], "recycled solution", n, champion, age, (mn2, mx2), total=rec.calls)
    # started again
    k = len(rec.calls)
    A.solve(miniter=mn, maxiter=mx)
    check(rec.calls[k:], "new solution", total=rec.calls[k:])


@sub(
    "P26",
    "symbolic",
    st.tuples(configs(symbolic=True).filter(valid), LIMITS).map(lambda t: dict(t[0], limits=t[1])),
    "more than one iteration is allowed",
    nontrivial=lambda c: c["limits"][1] > 1,
    quick=120,
)
def check_symbolic(case):
    mn, mx = case["limits"]
    A, _ = make(case, symbolic(case), miniter=mn, maxiter=mx)
    A.solve()
    n = int(A.state.n_iter)
    ok(max(mn, 1) <= n <= mx, f"{n} iterations")
    equal(int(A.state.n_fev), n * int(A.nPop), "number of evaluations")
    equal(int(A.state.stage), 1 if n >= mx else 2, "status")
    if n < mx and n > mn:
        equal(int(A.champion.age), case["maxage"] + 1, "age of the champion")


class Boom(Exception):
    pass


@sub(
    "P26",
    "errors",
    st.tuples(configs().filter(valid), st.integers(0, 60)).map(lambda t: dict(t[0], at=t[1])),
    "fails after the first generation",
    nontrivial=lambda c: c["at"] > c["nPop"] + 3,
    quick=150,
)
def errors(case):
    f = objective(case)
    count = [0]

    def g(x):
        count[0] += 1
        if count[0] == case["at"] + 1:
            raise Boom("boom")
        return f(x)

    A, _ = make(case, g, miniter=8, maxiter=10)
    N = int(A.nPop)
    try:
        A.solve()
    except Exception:
        failed = True
    else:
        failed = False
    equal(failed, count[0] > case["at"], "an error of the objective is reported")
    if failed:
        ok(A.state.success is False, "success of a failed solution")
        equal(int(A.state.stage), -1, "status of a failed solution")
        ok(len(A.state.message) > 0, "no message")
        if case["at"] >= N:
            ok(A.champion is not None and f(np.array(A.champion.phenotype)) == A.champion.fitness, "champion of a failed solution")
        # it can be solved again
        c = A.solve()
        ok(A.state.success is True and A.state.stage in (1, 2), "success of a repeated solution")
        equal(f(np.array(c.phenotype)), float(c.fitness), "champion of a repeated solution")


@sub(
    "P26",
    "invalid",
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["negative", "zero", "fraction", "large", "iterations"]),
            "n": st.integers(1, 20),
            "x": st.integers(1, 7),
            "late": st.booleans(),
        }
    ),
    "always",
    quick=60,
)
def invalid(case):
    N = 4 * case["n"]
    kw = {
        "negative": dict(elitism=-case["x"]),
        "zero": dict(elitism=0),
        "fraction": dict(elitism=1 + case["x"] / 8),
        "large": dict(elitism=N - 1 + case["x"]),
        "iterations": dict(miniter=5 + case["x"], maxiter=5),
    }[case["kind"]]
    R = [[0.0, 1.0], [0.0, 1.0]]
    if case["late"]:
        A = BGA(lambda x: x[0], R, length=4, nPop=N, maxiter=5)
        raises(ValueError, lambda: A.set_solution_params(**kw), f"{kw} for {N} members")
        B = BGA(lambda x: x[0], R, length=4, nPop=N, maxiter=5)
        raises(ValueError, lambda: B.solve(**kw), f"solution with {kw} for {N} members")
    else:
        raises(ValueError, lambda: BGA(lambda x: x[0], R, length=4, nPop=N, **kw), f"{kw} for {N} members")
