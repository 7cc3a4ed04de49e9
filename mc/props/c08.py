"""C08: metrics are evaluated on schedule, on the iterates, and all reported."""

import time

import numpy as np

from ..common import words
from ..solvers import ADMMS, ALL, VARIABLES, ScriptedCost, World, make
from .c01 import compositions


SCRIPTS = {
    "count": [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0],
    "zero": [0.0],
    "false": [False, True],
    "falling": [1.0, 0.0, -1.0, -0.0, 0, -3],
    "nan": [1.0, float("nan"), 0.0, float("inf"), float("-inf"), 2],
    "numpy": [np.float64(0.0), np.float32(2.5), np.int64(0), np.array(0.0), np.bool_(False)],
    "alternating": [0.0, 1.0],
}


class Spy:
    """A metric that keeps copies of its arguments; its value is scripted."""

    def __init__(self, scale=1.0, script=None):
        self.rows, self.scale, self.script = [], scale, script

    def value(self, number):
        if self.script is None:
            return self.scale * (number + 1)
        values = SCRIPTS[self.script]
        return values[number % len(values)]

    def __call__(self, **kwargs):
        self.rows.append({k: np.array(v) if isinstance(v, np.ndarray) else v
                          for k, v in kwargs.items()})
        return self.value(len(self.rows) - 1)


def schedule(plan, period, word):
    """(iteration number, index) pairs at which metrics are due."""
    out, used, lengths = [], 0, []
    for budget in plan:
        n = 0
        for idx in range(budget):
            n += 1
            used += 1
            stop = word is not None and word[min(used, len(word)) - 1] == "1"
            if period is not None and (idx % period == 0 or idx == budget - 1 or stop):
                out.append((used - 1, idx))
            if stop:
                break
        lengths.append(n)
    return out, lengths


def follow(case, obs):
    kind, plan, period, word = case["kind"], case["plan"], case["period"], case["word"]
    shape = tuple(case.get("shape", (3,)))
    world = World(shape, case.get("dtype", "float64"))
    names = VARIABLES[kind] + ("idx",)

    def build(metrics, every):
        cost = ScriptedCost(word) if word is not None and kind not in ADMMS else None
        return make(kind, world, cost=cost, metrics=metrics, metric_call_period=every)

    # reference trace: everything, at every iteration
    full = Spy()
    trace = build({"all": {"metric": full, "mapping": {n: n for n in names}, "cst_kwargs": {},
                           "early_stopping": False}}, 1)
    script = case.get("script")
    first, second, third = Spy(1.0, script), Spy(-0.5), Spy(2.0, script)
    const = np.arange(4.0)
    metrics = {
        "m1": {"metric": first, "mapping": {n: f"arg_{n}" for n in names}, "cst_kwargs": {},
               "early_stopping": False},
        "second one": {"metric": second, "mapping": {names[0]: "test", names[1]: None},
                       "cst_kwargs": {"ref": const, "idx": "given"}, "early_stopping": False},
        "m3": {"metric": third, "mapping": {}, "cst_kwargs": {"k": 3}, "early_stopping": False},
    }
    if case["one"]:
        metrics = {"m1": metrics["m1"]}
    algo = build(metrics, period)
    start = time.time()
    due, lengths = schedule(plan, period, word)
    so_far = 0
    for number, budget in enumerate(plan):
        trace.iterate(max_iter=budget)
        algo.iterate(max_iter=budget)
        so_far += lengths[number]
        now = [(k, idx) for k, idx in due if k < so_far]
        obs.check(len(full.rows) == so_far, "{} iterations instead of {}", len(full.rows), so_far)
        obs.check(len(first.rows) == len(now), "{} metric evaluations instead of {}",
                  len(first.rows), len(now))
        for row, (k, idx) in zip(first.rows, now):
            for name in names:
                obs.close(row[f"arg_{name}"], full.rows[k][name],
                          f"{name} given to the metric at iteration {k}", rtol=1e-9, atol=1e-12)
            obs.check(row["arg_idx"] == idx, "index {} instead of {}", row["arg_idx"], idx)
            obs.check(set(row) == {f"arg_{n}" for n in names}, "metric called with {}", set(row))
        report = algo.metrics
        obs.check(set(report) == set(metrics), "report holds {}", sorted(report))
        for name, spy in zip(metrics, (first, second, third)):
            entry = report[name]
            obs.check(list(entry["index"]) == [i for _, i in now], "reported indices {} instead of {}",
                      entry["index"], [i for _, i in now])
            obs.close(np.asarray(entry["values"], float),
                      np.array([spy.value(i) for i in range(len(now))], float), "reported values")
            times = np.asarray(entry["time"])
            obs.check(times.shape == (len(now),), "{} reported times", times.shape)
            if len(now):
                obs.check(times[0] == 0 and np.all(np.diff(times) > -0.5), "reported times {}", times)
                obs.check(np.all(times <= time.time() - start + 0.5), "reported times {}", times)
        if not case["one"]:
            obs.check(len(second.rows) == len(now) and len(third.rows) == len(now),
                      "not every metric was evaluated")
            for row, (k, _) in zip(second.rows, now):
                obs.check(set(row) == {"test", "ref", "idx"}, "second metric called with {}", set(row))
                obs.close(row["test"], full.rows[k][names[0]], "first variable", rtol=1e-9, atol=1e-12)
                obs.exact(row["ref"], const, "constant argument")
                obs.check(row["idx"] == "given", "constant argument overridden: {}", row["idx"])
            obs.check(all(row == {"k": 3} for row in third.rows), "third metric called with others")
        obs.close(algo.x_final, trace.x_final, "metrics changed the result", rtol=1e-9, atol=1e-12)
        obs.state(kind, period, so_far, len(now))
    obs.outcome(kind, [i for _, i in due])


def none(case, obs):
    """No metrics: nothing is reported, whatever the period."""
    algo = make(case["kind"], World(), metrics=case["metrics"], metric_call_period=case["period"])
    algo.iterate(max_iter=case["budget"])
    obs.check(algo.metrics == {}, "report is {}", algo.metrics)
    obs.state(case["kind"], case["budget"])
    obs.outcome(case["kind"])


def run(ctx):
    periods = [1, 2, 3, 4, 5, 7, 10, None]
    plans = [p for n in ctx.pick((1, 4, 5), (1, 2, 3, 4, 5, 6)) for p in compositions(n)]
    cases = [dict(kind=k, plan=p, period=q, word=None, one=one)
             for k in ALL for p in plans for q in periods for one in (True, False)]
    cases += [dict(kind=k, plan=p, period=q, word=w, one=True)
              for k in ALL if k not in ADMMS for q in periods
              for w in words("01", ctx.pick(4, 6)) for p in ([7], [3, 4], [2, 2, 2])]
    cases += [dict(kind=k, plan=p, period=q, word=None, one=False)
              for k in ALL for q in periods for p in ([11], [12], [13], [21, 8], [ctx.pick(52, 300)])]
    cases += [dict(kind=k, plan=p, period=q, word=None, one=True)
              for k, p, q in ([(k, [1250], 1) for k in ctx.pick(["fb", "condat", "vanilla"], ALL)]
                              + [("fb", [1100, 1100], 1), ("fb", [2300], 2)])]
    ctx.explore("all periods, budgets, splits and convergence points", cases, follow)
    cases = [dict(kind=k, plan=[5, 4], period=q, word=None, one=False, shape=s, dtype=d)
             for k in ALL for q in (1, 2, 5) for s in ((1,), (2, 3), (2, 1, 2))
             for d in ("float64", "complex128")]
    ctx.explore("shapes and types", cases, follow)
    cases = [dict(kind=k, plan=p, period=q, word=None, one=one, script=s)
             for k in ALL for s in SCRIPTS for q in (1, 2) for one in (True, False)
             for p in ([1], [7], [3, 4], [2, 1, 2])]
    ctx.explore("metrics of every value", cases, follow)
    cases = [dict(kind=k, metrics=m, period=q, budget=b) for k in ALL for m in (None, {})
             for q in periods for b in (1, 5)]
    ctx.explore("no metrics", cases, none)
