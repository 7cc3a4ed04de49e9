"""C06: ADMM and fast ADMM follow Goldstein et al., algorithms 1 and 8."""

import itertools

import numpy as np

from modopt.opt.algorithms import ADMM, FastADMM
from modopt.opt.algorithms.admm import ADMMcostObj

from ..common import LAYOUTS, Linear, Recorder, data, laid, matrix, steady, with_ties, words
from ..core import Pruned, Violation
from ..refs import admm, fast_admm
from .c01 import compositions

ANSWERS = {
    "i": lambda init, obs: init.copy(),
    "0": lambda init, obs: np.zeros_like(init),
    "a": lambda init, obs: np.resize(np.array([1.0, -2.0, 0.5]), init.shape).astype(init.dtype),
    "o": lambda init, obs: np.resize(-obs, init.shape),
    "h": lambda init, obs: 0.5 * init,
    "m": lambda init, obs: 0.5 * init - 0.25 * np.resize(obs, init.shape),
}


class Optimiser:
    """A sub-problem solver, revealed one answer at a time."""

    def __init__(self, word):
        self.word, self.memo = word, []

    def __call__(self, init, obs):
        init, obs = np.array(init), np.array(obs)
        for x, y, answer in self.memo:
            if np.allclose(x, init, rtol=1e-7, atol=1e-9) and np.allclose(y, obs, rtol=1e-7, atol=1e-9):
                return answer.copy()
        answer = ANSWERS[self.word[min(len(self.memo), len(self.word) - 1)]](init, obs)
        self.memo.append((init, obs, answer))
        return answer.copy()

    def again(self):
        return Optimiser(self.word)


PROBLEMS = {
    # name: (A, B, b, u, v, mu)
    "plain": (np.eye(2), -np.eye(2), [0.0, 0.0], [1.0, 2.0], [0.5, -1.0], [0.0, 0.0]),
    "general": ([[1.0, 0.5], [0.0, 2.0]], [[1.0, 0.0], [1.0, -1.0]], [0.3, -0.7], [1.0, 2.0],
                [0.5, -1.0], [0.25, 0.125]),
    "narrow": ([[1.0, 0.5], [0.0, 2.0]], [[1.0], [0.5]], [0.3, -0.7], [1.0, 2.0], [0.5],
               [0.1, -0.2]),
}


def kept_multiplier(algo, mu):
    """The multiplier, if the solver still keeps it under its present name."""
    kept = getattr(algo, "_mu_new", None)
    return np.array(kept) if isinstance(kept, np.ndarray) and kept.shape == mu.shape else None


def lockstep(obs, case, parts, opts_a, make_ref, plan, tols, same_calls=lambda obs: None):
    """Follow the documented recurrence, or else exactly the known deviation."""
    a_mat, b_mat, b, u, v, mu = (np.asarray(p) for p in parts)
    rec = Recorder("x_new", "v_new", "idx")
    kwargs = {k: case[k] for k in ("tau", "eta", "alpha") if case.get(k) is not None}
    cls = FastADMM if case["fast"] else ADMM
    algo = cls(u.copy(), v.copy(), mu.copy(), Linear(a_mat), Linear(b_mat), b.copy(), opts_a,
               metric_call_period=1, metrics=rec.metrics(), progress=False, **kwargs)
    finals = []
    for count in plan:
        algo.iterate(max_iter=count)
        finals.append((len(rec.rows), algo.u_final.copy(), algo.x_final.copy(),
                       algo.v_final.copy(), kept_multiplier(algo, mu)))
    total = sum(plan)
    obs.check(len(rec.rows) == total, "{} iterations instead of {}", len(rec.rows), total)
    index = [k for count in plan for k in range(count)]

    def follow(documented, obs):
        ref, pattern = make_ref(documented), ""
        rows = [next(ref) for _ in range(total)]
        for k, (row, want) in enumerate(zip(rec.rows, rows)):
            obs.close(row["x_new"], want["x_new"], f"first variable of iteration {k}", **tols)
            obs.close(row["v_new"], want["v_new"], f"second variable of iteration {k}", **tols)
            obs.check(row["idx"] == index[k], "iteration index {} instead of {}", row["idx"], index[k])
            pattern += want.get("event", "-")[0]
            obs.state(case["fast"], k, want["x_new"], want["v_new"])
        for at, u_fin, x_fin, v_fin, mu_fin in finals:
            if mu_fin is not None:
                obs.close(mu_fin, rows[at - 1]["mu"], "multiplier", **tols)
            obs.close(u_fin, rows[at - 1]["x_new"], "u_final", **tols)
            obs.close(x_fin, rows[at - 1]["x_new"], "x_final", **tols)
            obs.close(v_fin, rows[at - 1]["v_new"], "v_final", **tols)
        same_calls(obs)
        obs.outcome(case["fast"], pattern)

    def attempt(documented):
        with_ties(lambda _, trial: follow(documented, trial))(None, obs)

    try:
        attempt(True)
    except (Violation, Pruned) as exc:
        try:
            attempt(False)
        except Violation:
            if isinstance(exc, Pruned):
                raise Pruned("tie") from exc
            raise
        obs.known.add("admm-observation-" + ("fast" if case["fast"] else "plain"))


def reference(case, parts, opts, documented):
    a_mat, b_mat, b, u, v, mu = (np.asarray(p) for p in parts)
    a_op, b_op = Linear(a_mat).op, Linear(b_mat).op
    if not case["fast"]:
        return admm(u, v, mu, a_op, b_op, b, *opts, documented)
    kwargs = {k: case[k] for k in ("tau", "eta", "alpha") if case.get(k) is not None}
    return fast_admm(u, v, mu, a_op, b_op, b, *opts, documented, **kwargs)


def adversarial(case, obs):
    parts = PROBLEMS[case["problem"]]
    real = (Optimiser(case["h"]), Optimiser(case["g"]))
    refs = []

    def make(documented):
        pair = (Optimiser(case["h"]), Optimiser(case["g"]))
        refs.append(pair)
        return reference(case, parts, pair, documented)

    def same_calls(obs):
        for got, want in zip(real, refs[-1]):
            obs.check(len(got.memo) == len(want.memo), "{} distinct sub-problems instead of {}",
                      len(got.memo), len(want.memo))
            for (x, y, _), (p, q, _) in zip(got.memo, want.memo):
                obs.close(x, p, "starting point given to a sub-problem")
                obs.close(y, q, "observation given to a sub-problem")

    obs.twin = (lambda shake, n: list(itertools.islice(reference(case, parts, [shake(p) for p in real], False), n)),
                sum(case["plan"]), {})
    lockstep(obs, case, parts, real, make, case["plan"], {}, same_calls)


def concrete(case, obs):
    dtype = np.dtype(case["dtype"])
    n, m, r = case["dims"]
    a_mat, b_mat = matrix(r, n, 1, dtype, 1.0), matrix(r, m, 4, dtype, 1.0)
    scale = case.get("scale", 1.0)
    b, u, v, mu = (scale * data((k,), s, dtype) for s, k in ((1, r), (2, n), (3, m), (4, r)))
    parts = tuple(laid(p, case.get("memory", "plain")) for p in (a_mat, b_mat, b, u, v, 0.1 * mu))
    opts = (
        lambda init, obs: 0.5 * init - 0.3 * (a_mat.conj().T @ obs),
        lambda init, obs: 0.6 * init - 0.2 * (b_mat.conj().T @ obs) + 0.05 * scale,
    )
    tols = {"rtol": 1e-6, "atol": 1e-8 * scale}
    obs.twin = (lambda shake, n: list(itertools.islice(reference(case, parts, [shake(p) for p in opts], False), n)),
                sum(case["plan"]), tols)
    lockstep(obs, case, parts, opts, lambda d: reference(case, parts, opts, d), case["plan"], tols)


def cost(case, obs):
    """Value, schedule and convergence test of the ADMM cost."""
    a_mat, b_mat, b, u, v, _ = (np.asarray(p) for p in PROBLEMS[case["problem"]])
    funcs = (lambda x: float(np.sum(np.abs(x))), lambda x: 0.5 * float(np.sum(x**2)))
    inst = ADMMcostObj(funcs, Linear(a_mat), Linear(b_mat), b, case["tau"], verbose=case["verbose"],
                       cost_interval=case["interval"], test_range=case["range"],
                       tolerance=case["tolerance"], initial_cost=7.5)
    value, window = 7.5, []
    for k, (su, sv) in enumerate(case["moves"], 1):
        uu, vv = u * su, v * sv
        answer = inst.get_cost(uu, vv)
        verdict = False
        if case["interval"] is not None and k % case["interval"] == 0:
            value = (funcs[0](uu) + funcs[1](vv)
                     + case["tau"] * np.sum((a_mat @ uu + b_mat @ vv - b) ** 2))
            window.append(value)
            if len(window) == case["range"]:
                half = case["range"] // 2
                t1, t2 = np.mean(window[half:]), np.mean(window[:half])
                verdict = abs(t1 - t2) / abs(t1) <= case["tolerance"] if t1 else True
                window = []
        obs.close(inst.cost, value, f"cost after call {k}")
        obs.check(bool(answer) == verdict, "convergence answer {} at call {}", answer, k)
        obs.state(case["problem"], k, value, verdict)
    obs.outcome(value)


def stops(case, obs):
    """A solver given cost functions reports convergence through its cost."""
    a_mat, b_mat, b, u, v, mu = (np.asarray(p) for p in PROBLEMS["general"])
    calls = []
    cls = FastADMM if case["fast"] else ADMM
    script = case["costs"]

    def value(x):
        calls.append(1)
        return script[min(len(calls) - 1, len(script) - 1)]

    rec = Recorder("idx")
    algo = cls(u, v, mu, Linear(0 * a_mat), Linear(0 * b_mat), 0 * b,
               (lambda init, obs: init, lambda init, obs: init), cost_funcs=(value, lambda x: 0.0),
               metric_call_period=1, metrics=rec.metrics(), progress=False)
    algo.iterate(max_iter=case["budget"])
    want = case["budget"]
    for k in range(4, case["budget"] + 1, 4):
        window = [script[min(i, len(script) - 1)] for i in range(k - 4, k)]
        t1, t2 = np.mean(window[2:]), np.mean(window[:2])
        if (abs(t1 - t2) / abs(t1) if t1 else 0) <= 1e-4:
            want = k
            break
    obs.check(len(rec.rows) == want, "{} iterations instead of {}", len(rec.rows), want)
    obs.state(case["fast"], script, want)
    obs.outcome(want)


def run(ctx):
    depth = ctx.pick(3, 4)
    cases = [
        dict(fast=f, problem=p, h=h, g=g, plan=[depth + 1], tau=tau, eta=eta)
        for f, taus in ((False, (None, 2.0)), (True, (None, 0.5)))
        for p in PROBLEMS for h in words("ia0om", depth)
        for g in words("iom" if not ctx.thorough else "ia0om", 3) for tau in taus
        for eta in ((None, 0.5) if f else (None,))
    ]
    ctx.explore("all sub-problem solvers answering within the alphabet", cases, steady(adversarial))
    cases = [
        dict(fast=f, problem=p, h=h, g=g, plan=plan, tau=2.0, eta=eta, alpha=alpha)
        for f in (False, True) for p in PROBLEMS for h in ("mahom", "hoami") for g in ("mmoha", "ohmam")
        for n in (3, 4, 5) for plan in compositions(n)
        for eta, alpha in (((None, None), (0.9, 2.0), (0.3, 3)) if f else ((None, None),))
    ]
    cases += [
        dict(fast=True, problem=p, h=h, g=g, plan=plan, tau=tau, eta=eta, alpha=alpha)
        for p in PROBLEMS for h in words("aom", 3) for g in words("om", 3) for plan in ([5], [2, 3])
        for tau, eta, alpha in ((1, 0.5, 0.2), (1, 0.3, 0.0), (1, 1e-6, 1), (1, 1.0, 1.0), (1, 2.0, 0.5),
                                (1e-6, 0.5, 4), (1e6, 0.5, 50.0), (0.0, 0.5, 2.0))
    ]
    ctx.explore("all splits of a run into iterate calls", cases, steady(adversarial))
    cases = [
        dict(fast=f, dims=d, dtype=t, plan=plan, tau=tau, eta=eta, alpha=alpha)
        for f in (False, True) for d in ((1, 1, 1), (3, 3, 3), (3, 1, 3), (3, 5, 3), (8, 8, 8))
        for t in ("float64", "complex128") for plan in ([ctx.pick(40, 150)], [11, 9], [1, 1, 1, 5])
        for tau in (0.5, 1, 3.0)
        for eta, alpha in (((None, None), (0.8, 1.0), (0.5, 2.5)) if f else ((None, None),))
    ]
    ctx.explore("long runs", cases, steady(concrete))
    cases = [
        dict(fast=f, dims=d, dtype=t, plan=plan, tau=tau, eta=eta, alpha=None, scale=scale)
        for f in (False, True) for d in ((3, 3, 3), (3, 1, 3)) for t in ("float64", "complex128")
        for plan in ([25], [4, 7]) for tau in (0.5, 2.0) for eta in ((None, 0.8) if f else (None,))
        for scale in (1e-7, 1e-3, 1e3, 1e7)
    ]
    ctx.explore("data of every magnitude", cases, steady(concrete))
    cases = [
        dict(fast=f, dims=(3, 3, 3), dtype="float64", plan=[ctx.pick(1000, 5000)], tau=tau, eta=None,
             alpha=None) for f in (False, True) for tau in (0.5, 1, 3.0)
    ]
    ctx.explore("very long runs", cases, steady(concrete))
    cases = [
        dict(fast=f, dims=d, dtype=t, plan=plan, tau=tau, eta=eta, alpha=None, memory=m)
        for f in (False, True) for d in ((3, 3, 3), (3, 1, 3), (4, 2, 4)) for t in ("float64", "complex128")
        for plan in ([12], [1, 4]) for tau in (0.5, 2.0) for eta in ((None, 0.8) if f else (None,)) for m in LAYOUTS
    ]
    ctx.explore("memory layouts", cases, steady(concrete))
    moves = [[1.0, 1.0], [0.5, -1.0], [0.0, 0.0]]

    cases = [
        dict(problem=p, tau=tau, interval=i, range=r, tolerance=t, verbose=b, moves=list(seq))
        for p in PROBLEMS for tau in (1.0, 0.25) for i in (1, 2, 3, None) for r in (2, 4, 3)
        for t in (1e-4, 0.6) for b in (False, True)
        for seq in itertools.product(moves, repeat=ctx.pick(5, 7))
    ]
    cases = [c for c in cases if c["verbose"] is False or c["moves"][0] == moves[0]]
    ctx.explore("cost value and schedule", cases, cost)
    cases = [
        dict(fast=f, costs=list(s), budget=b) for f in (False, True) for b in (1, 4, 9, 12)
        for s in itertools.product([1.0, 2.0, 0.0], repeat=ctx.pick(5, 8))
    ]
    ctx.explore("convergence through the cost functions", cases, stops)
    ctx.assumptions += [
        "the first variable and the constraint have the same size (the known finding makes "
        "other problems fail)",
        "where the restart test of fast ADMM is a tie up to rounding, both outcomes are accepted"]
