"""C07: how long a solver runs, and why it stops."""

import io
import itertools

import numpy as np
from tqdm import tqdm

from ..common import Grad, Prox, Recorder, words
from ..solvers import ADMMS, ALL, AUTO, DESCENT, WITH_COST, ScriptedCost, World, make


class Counter:
    """Counts the iterations of a run through the metric interface."""

    def __init__(self, script=None):
        self.index = []
        self.script = script

    def __call__(self, idx):
        self.index.append(idx)
        if self.script is None:
            return float(len(self.index))
        return self.script[min(len(self.index), len(self.script)) - 1]

    def metrics(self, early=False):
        return {"count": {"metric": self, "mapping": {"idx": "idx"}, "cst_kwargs": {},
                          "early_stopping": early}}


class Bar:
    """A progress bar with the interface of tqdm that shows nothing."""

    total, disable, leave, desc, unit = None, False, True, "", "it"

    def __init__(self):
        self.n = 0

    def update(self, n=1):
        self.n += n

    def reset(self, total=None):
        self.n, self.total = 0, total

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def nothing(self, *args, **kwargs):
        return None

    close = refresh = clear = display = unpause = nothing
    set_description = set_description_str = set_postfix = set_postfix_str = nothing


def bars(what):
    """A progress bar of the caller; what it shows is not what the run does."""
    if what == "given":
        return Bar()
    kind, total = what.split(":")
    total = None if total == "none" else int(total)
    return tqdm(total=total, file=io.StringIO(), disable=kind == "disabled",
                initial=2 if kind == "started" else 0)


BARS = ("tqdm:none", "tqdm:0", "tqdm:1", "tqdm:1000", "disabled:2", "started:3")


def expected_cost(word, plan, start=0):
    """Iterations of each iterate call when the cost answers by ``word``."""
    used, out = start, []
    for budget in plan:
        n = 0
        while n < budget:
            n += 1
            used += 1
            if word[min(used, len(word)) - 1] == "1":
                break
        out.append(n)
    return out


def scripted(case, obs):
    """The cost says when to stop."""
    kind, plan = case["kind"], case["plan"]
    counter, cost = Counter(), ScriptedCost(case["word"])
    algo = make(kind, World(), cost=cost, metrics=counter.metrics(), metric_call_period=1,
                verbose=case["verbose"], progress=case["bar"] == "own")
    wanted = expected_cost(case["word"], plan)
    bar = None if case["bar"] in ("none", "own") else bars(case["bar"])
    for budget, want in zip(plan, wanted):
        before, calls = len(counter.index), cost.calls
        if bar is not None:
            algo.iterate(max_iter=budget, progbar=bar)
        else:
            algo.iterate(max_iter=budget)
        got = counter.index[before:]
        obs.check(got == list(range(want)), "iterations {} instead of {}", got, list(range(want)))
        obs.check(cost.calls - calls == want, "{} convergence tests in {} iterations",
                  cost.calls - calls, want)
        obs.check(bool(algo.converge) == (cost.word[min(cost.calls, len(cost.word)) - 1] == "1")
                  or want == 0, "converge flag is {}", algo.converge)
        obs.state(kind, cost.calls, want, bool(algo.converge))
    obs.outcome(kind, wanted)


def admm_script(case, obs):
    """ADMM: same, through the documented windowed test on the cost functions."""
    script, plan, seen, counter = case["costs"], case["plan"], [], Counter()

    def value(x):
        seen.append(1)
        return script[min(len(seen), len(script)) - 1]

    algo = make(case["kind"], World(), cost_funcs=(value, lambda x: 0.0),
                optimisers=(lambda init, obs: 0 * init, lambda init, obs: 0 * init),
                linear=World((3,)).linear(), metrics=counter.metrics(), metric_call_period=1)
    # the residual of the constraint is constant here
    rest = float(np.sum((0.5 * World().x0) ** 2))
    used, wanted = 0, []
    for budget in plan:
        n = 0
        while n < budget:
            n += 1
            used += 1
            if used % 4 == 0:
                window = [script[min(i, len(script)) - 1] + rest for i in range(used - 3, used + 1)]
                if abs(sum(window[2:]) - sum(window[:2])) / abs(sum(window[2:])) <= 1e-4:
                    break
        wanted.append(n)
    for budget, want in zip(plan, wanted):
        before = len(counter.index)
        algo.iterate(max_iter=budget)
        got = counter.index[before:]
        obs.check(got == list(range(want)), "iterations {} instead of {}", got, list(range(want)))
        obs.state(case["kind"], len(counter.index), want)
    obs.outcome(case["kind"], wanted)


def flag_after(values, wind=6, eps=1e-3):
    if len(values) < wind:
        return False
    old = np.mean(values[-wind:-(wind // 2)])
    new = np.mean(values[-(wind // 2):])
    with np.errstate(all="ignore"):
        return bool(np.abs(old - new) / np.abs(old) < eps)


def early(case, obs):
    """A metric with early stopping ends the run; without it, it never does."""
    kind, script, budget = case["kind"], case["values"], case["budget"]
    period = case["period"]
    counter = Counter(script)
    steps = []

    cost = None if case["cost"] == "none" else ScriptedCost("0")
    metrics = counter.metrics(case["early"])
    if case["other"]:
        other = Counter([1.0])
        metrics = {"other": {"metric": other, "mapping": {"idx": "idx"}, "cst_kwargs": {},
                             "early_stopping": False}, **metrics}
    world = World()
    prox = Prox(lambda x, f: steps.append(1) or x / (1 + 0.1 * np.asarray(f)))
    if kind in ADMMS:
        algo = make(kind, world, metrics=metrics, metric_call_period=period, optimisers=(
            lambda init, obs: steps.append(1) or init, lambda init, obs: init))
    else:
        algo = make(kind, world, cost=cost, prox=prox, metrics=metrics, metric_call_period=period)
    algo.iterate(max_iter=budget)
    ran = len(steps)
    # iteration after which the flag is up for the first time
    stop, values = None, []
    for k in range(budget):
        if k % period == 0 or k == budget - 1:
            values.append(script[min(len(values), len(script) - 1)])
            if case["early"] and flag_after(values):
                stop = k + 1
                break
    if stop is None:
        obs.check(ran == budget, "{} iterations instead of {}", ran, budget)
    else:
        allowed = {min(stop, budget), min(stop + 1, budget)}
        obs.check(ran in allowed, "{} iterations; the metric converged after {}", ran, stop)
        obs.check(bool(algo.converge) or ran == budget, "stopped without reporting convergence")
    obs.state(kind, ran, stop, script)
    obs.outcome(kind, ran)


def early_calls(case, obs):
    """A metric with early stopping over several calls of iterate."""
    kind, script, period = case["kind"], case["values"], case["period"]
    counter, steps = Counter(script), []
    world = World()
    prox = Prox(lambda x, f: steps.append(1) or x / (1 + 0.1 * np.asarray(f)))
    kwargs = dict(metrics=counter.metrics(True), metric_call_period=period)
    if kind in ADMMS:
        algo = make(kind, world, optimisers=(
            lambda init, obs: steps.append(1) or init, lambda init, obs: init), **kwargs)
    else:
        algo = make(kind, world, prox=prox, **kwargs)
    got = []
    for budget in case["plan"]:
        before = len(steps)
        algo.iterate(max_iter=budget)
        got.append(len(steps) - before)

    def simulate(late):
        """``late``: the flag is looked at before the metric of the iteration."""
        values, out = [], []

        def measure():
            values.append(script[min(len(values), len(script) - 1)])

        for budget in case["plan"]:
            stop = False
            for idx in range(budget):
                if late:
                    stop = flag_after(values)
                if idx % period == 0 or idx == budget - 1 or stop:
                    measure()
                if not late:
                    stop = flag_after(values)
                if stop:
                    break
            out.append(idx + 1)
        return out

    allowed = [simulate(True), simulate(False)]
    obs.check(got in allowed, "iterations per call {}, expected {}", got, allowed)
    obs.state(kind, script, got)
    obs.outcome(kind, got)


def automatic(case, obs):
    """auto_iterate runs the default number of iterations and sets the result."""
    kind = case["kind"]
    world = World(case["shape"])
    counter, other = Counter(), Counter()
    kwargs = {"max_iter": case["budget"]} if kind == "condat" else {}
    auto = make(kind, world, auto_iterate=True, metrics=counter.metrics(), metric_call_period=1,
                **kwargs)
    budget = case["budget"] if kind == "condat" else 150
    obs.check(counter.index == list(range(budget)), "{} iterations instead of {}",
              len(counter.index), budget)
    manual = make(kind, world, metrics=other.metrics(), metric_call_period=1)
    obs.check(other.index == [], "iterations took place before iterate was called")
    manual.iterate(max_iter=budget)
    obs.close(auto.x_final, manual.x_final, "result of an automatic run")
    obs.state(kind, auto.x_final)
    obs.outcome(kind, budget)


def auto_cost(case, obs):
    """cost='auto': the sum of the operator costs drives the documented test."""
    kind, script, budget = case["kind"], case["costs"], case["budget"]
    world, counter, seen = World(), Counter(), []

    def from_grad(x):
        seen.append(1)
        return script[min(len(seen), len(script)) - 1]

    share = {"fb": 1, "fb-plain": 1, "genfb": 2, "pogm": 1, "condat": 2}.get(kind, 1)
    algo = make(kind, world, cost="auto", grad=Grad(world.gradient, from_grad),
                prox=Prox(lambda x, f: x, lambda x: 0.25), prox2=Prox(lambda x, f: x, lambda x: 0.25),
                metrics=counter.metrics(), metric_call_period=1)
    algo.iterate(max_iter=budget)
    want = budget
    for k in range(4, budget + 1, 4):
        window = [script[min(i, len(script)) - 1] + 0.25 * share for i in range(k - 3, k + 1)]
        new, old = np.mean(window[2:]), np.mean(window[:2])
        diff = abs(new - old) / abs(new) if new else 0.0
        if diff <= 1e-4:
            want = k
            break
    obs.check(len(counter.index) == want, "{} iterations instead of {}", len(counter.index), want)
    obs.state(kind, script, want)
    obs.outcome(kind, want)


def reweighted(case, obs):
    """Condat: one run, then one run per reweighting."""
    world, counter = World(), Counter()
    seen, word = [], case["word"]

    class Weights:
        def reweight(self, value):
            seen.append((len(counter.index), np.array(value)))

    cost = ScriptedCost(word) if word else None
    algo = make("condat", world, cost=cost, metrics=counter.metrics(), metric_call_period=1,
                reweight=Weights() if case["on"] else None)
    if case["bar"]:
        algo.iterate(max_iter=case["budget"], n_rewightings=case["n"],
                     progbar=bars(case["bar"]))
    else:
        algo.iterate(max_iter=case["budget"], n_rewightings=case["n"])
    rounds = 1 + (case["n"] if case["on"] else 0)
    want = expected_cost(word or "0", [case["budget"]] * rounds)
    index = [k for n in want for k in range(n)]
    obs.check(counter.index == index, "iterations {} instead of {}", counter.index, index)
    obs.check(len(seen) == rounds - 1, "{} reweightings instead of {}", len(seen), rounds - 1)
    for k, (at, _) in enumerate(seen):
        obs.check(at == sum(want[: k + 1]), "reweighting {} after {} iterations", k, at)
    obs.state(case["n"], want)
    obs.outcome(want)


class Watched:
    """Keeps a copy of what a cost is asked about."""

    def __init__(self):
        self.seen = []

    def cost(self, *args, **kwargs):
        self.seen.append([np.array(a) for a in args])
        return float(len(self.seen))

    def get_cost(self, *args, **kwargs):
        self.cost(*args)
        return False


def current(case, obs):
    """Whether to stop is asked of the iterates just computed."""
    kind = case["kind"]
    names = ("x_new", "v_new") if kind in ADMMS else ("x_new", "y_new") if kind == "condat" else ("x_new",)
    rec, watched = Recorder(*names), [Watched() for _ in range(3)]
    kw = dict(metrics=rec.metrics(), metric_call_period=1)
    world = World(tuple(case["shape"]), case["dtype"])
    if kind in ADMMS:
        algo = make(kind, world, cost_funcs=(watched[0].cost, watched[1].cost), **kw)
        parts = [(0,), (1,), ()]
    elif case["cost"] == "auto":
        algo = make(kind, world, cost="auto", grad=world.grad(watched[0].cost), prox=world.prox(0.1, watched[1].cost),
                    prox2=world.prox(0.3, watched[2].cost), **kw)
        parts = [range(len(names))] * (3 if kind in ("genfb", "condat") else 2) + [()]
    else:
        algo = make(kind, world, cost=watched[0], **kw)
        parts = [range(len(names)), (), ()]
    for budget in case["plan"]:
        algo.iterate(max_iter=budget)
    total = sum(case["plan"])
    obs.check(len(rec.rows) == total, "{} iterations instead of {}", len(rec.rows), total)
    for one, part in zip(watched, parts):
        if not part:
            continue
        obs.check(len(one.seen) == total, "a cost asked {} times in {} iterations", len(one.seen), total)
        for k, (args, row) in enumerate(zip(one.seen, rec.rows)):
            for arg, n in zip(args, part):
                obs.close(arg, row[names[n]], f"{names[n]} given to the cost at iteration {k}")
            obs.state(kind, case["cost"], k, row[names[0]])
    obs.outcome(kind, total)


def run(ctx):
    depth = ctx.pick(5, 7)
    plans = [[4], [2, 3], [1, 1, 2], [6], [3, 0, 1]]
    cases = [
        dict(kind=k, word=w, plan=p, verbose=v, bar=b)
        for k in WITH_COST for w in words("01", depth) for p in plans
        for v, b in ((False, "none"), (True, "none"), (False, "own"), (False, "given"))
        if not (b == "given" and k in DESCENT)
    ]
    cases += [dict(kind=k, word=w, plan=p, verbose=False, bar=b)
              for k in WITH_COST if k not in DESCENT for b in BARS
              for w in words("01", 3) for p in plans]
    cases += [dict(kind=k, word=w, plan=p, verbose=False, bar="none") for k in WITH_COST
              for w in ("0", "0" * 99 + "1") for p in ([ctx.pick(300, 2000)], [130, 170])]
    ctx.explore("all convergence answers", cases, scripted)
    cases = [
        dict(kind=k, costs=list(s), plan=p) for k in ADMMS
        for s in itertools.product([1.0, 3.0], repeat=ctx.pick(6, 9)) for p in ([10], [3, 3, 6], [4, 5])
    ]
    ctx.explore("all cost histories of ADMM", cases, admm_script)
    scripts = [list(s) for s in itertools.product([1.0, 2.0], repeat=ctx.pick(6, 8))]
    scripts += [list(s) + [5.0, 5.0005] for s in itertools.product([1.0, 2.0, -2.0], repeat=4)]
    cases = [
        dict(kind=k, values=s, budget=b, early=e, cost=c, other=o, period=p)
        for k in ALL for s in scripts for b in (6, 7, 12) for p in (1, 2)
        for e, c, o in ((True, "none", False), (True, "never", False), (True, "none", True),
                        (False, "none", False))
        if not (k in ADMMS and c == "never")
    ]
    ctx.explore("all metric histories", cases, early)
    cases = [
        dict(kind=k, values=list(s), plan=plan, period=p)
        for k in ALL for s in itertools.product([1.0, 2.0], repeat=ctx.pick(9, 11))
        for plan, p in (([6, 3, 4], 1), ([12, 2, 1, 1], 1), ([7, 7], 2), ([1] * 9, 1))
    ]
    ctx.explore("metric histories over several calls", cases, early_calls)
    cases = [dict(kind=k, budget=b, shape=s) for k in AUTO for b in (1, 3, 150, 151)
             for s in ((1,), (3,), (2, 2))]
    ctx.explore("automatic runs", cases, automatic)
    cases = [dict(kind=k, cost=c, plan=p, shape=s, dtype=d) for k in ALL for c in ("object", "auto")
             for p in ([1], [5], [2, 3], [1, 1, 4], [9]) for s, d in (((3,), "float64"), ((2, 2), "complex128"))
             if c == "object" or k in AUTO]
    ctx.explore("what the convergence test looks at", cases, current)
    cases = [
        dict(kind=k, costs=list(s), budget=b) for k in WITH_COST
        for s in itertools.product([1.0, 1.0001, 2.0], repeat=ctx.pick(5, 8)) for b in (9, 13)
    ]
    ctx.explore("automatic cost", cases, auto_cost)
    cases = [
        dict(budget=b, n=n, on=on, word=w, bar=bar) for b in (1, 2, 3, 5) for n in (0, 1, 2, 3)
        for on in (True, False) for w in [""] + words("01", 4)
        for bar in ("", "given") + BARS
    ]
    ctx.explore("reweighting rounds", cases, reweighted)
