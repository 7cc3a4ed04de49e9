"""C35: failures of what the user supplied, at every point of a run."""

import itertools

import numpy as np

from modopt.base.observable import MetricObserver, Observable
from modopt.math.matrix import PowerMethod
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import LinearCombo
from modopt.opt.proximity import (ElasticNet, LinearCompositionProx, LowRankMatrix, ProximityCombo, Ridge,
                                  SparseThreshold)
from modopt.opt.reweight import cwbReweight
from modopt.signal.svd import svd_thresh_coef
from modopt.signal.validation import transpose_test

from ..common import Grad, Linear, Prox, data
from ..solvers import ADMMS, ALL, DESCENT, VARIABLES, World, make
from .c07 import Bar


class Special(Exception):
    """An exception ModOpt knows nothing about."""


class Halt(BaseException):
    """Not even an Exception."""


FAULTS = {
    "special": Special, "halt": Halt, "interrupt": KeyboardInterrupt, "exit": SystemExit, "value": ValueError, "type": TypeError,
    "attribute": AttributeError, "index": IndexError, "key": KeyError, "import": ImportError, "runtime": RuntimeError,
    "arithmetic": FloatingPointError, "memory": MemoryError, "system": OSError, "missing": NotImplementedError,
    "warning": UserWarning, "division": ZeroDivisionError, "algebra": np.linalg.LinAlgError,
}


class Wire:
    """Counts the calls of everything supplied; call number ``at`` fails."""

    def __init__(self, at=None, kind="special"):
        self.at, self.count, self.names = at, 0, []
        self.fault = FAULTS[kind]("supplied")

    def __call__(self, name, fn):
        def wrapped(*args, **kwargs):
            self.count += 1
            self.names.append(name)
            if self.count - 1 == self.at:
                raise self.fault
            return fn(*args, **kwargs)
        return wrapped


class Trace:
    """A metric that keeps what it is shown."""

    def __init__(self):
        self.rows = []

    def __call__(self, **kwargs):
        self.rows.append({k: np.array(v) for k, v in kwargs.items()})
        return float(len(self.rows))


class WiredBar(Bar):
    """A progress bar whose updates may fail."""

    def __init__(self, wire):
        super().__init__()
        self.update = wire("bar", self.update)


def supplied(kind, wire, case):
    """A solver all of whose operators are counted, and the arrays the caller keeps."""
    world = World()
    steps = itertools.count()  # costs that never settle
    grad, prox, prox2, line = world.grad(lambda x: 2.0 ** next(steps)), world.prox(), world.prox(0.3), world.linear()
    grad.get_grad = wire("gradient", grad.get_grad)
    for one, name in ((prox, "prox"), (prox2, "second prox")):
        one.op = wire(name, one.op)
        one.cost = wire(f"cost of the {name}", one.cost)
    grad.cost = wire("cost of the gradient", grad.cost)
    line.op, line.adj_op = wire("operator", line.op), wire("adjoint", line.adj_op)
    trace = Trace()
    kw = dict(metrics={"m": {"metric": wire("metric", trace), "mapping": {n: n for n in (*VARIABLES[kind], "idx")},
                             "cst_kwargs": {}, "early_stopping": case["early"]}},
              metric_call_period=case["period"], grad=grad, prox=prox, prox2=prox2, linear=line, x0=world.x0,
              progress=case["bar"] == "own")
    kept = [world.x0, world.target, world.mat]
    if kind in ADMMS:
        kw["optimisers"] = (wire("first solver", lambda init, obs: 0.5 * init - 0.25 * obs),
                            wire("second solver", lambda init, obs: 0.4 * init + 0.2 * obs))
        if case["cost"]:
            kw["cost_funcs"] = (wire("first cost", lambda x: 2.0 ** next(steps)), wire("second cost", lambda x: 1.0))
    elif case["cost"] == "auto" and kind not in DESCENT:
        kw["cost"] = "auto"
    elif case["cost"]:
        cost = type("Cost", (), {})()
        cost.get_cost = wire("cost", lambda *args, **kwargs: False)
        kw["cost"] = cost
    slower = wire("schedule", lambda value, *rest: 0.9 * value)
    kw.update({"fb": {"beta_update": slower}, "fb-plain": {"beta_update": slower}, "genfb": {"gamma_update": slower},
               "condat": {"sigma_update": slower, "rho_update": slower},
               "pogm": {}}.get(kind, {} if kind in ADMMS else {"eta_update": slower}))
    if kind == "condat" and case["cost"] != "auto":
        again = cwbReweight(np.ones(3))
        again.reweight = wire("reweighting", again.reweight)
        kw["reweight"] = again
    return (lambda: make(kind, world, **kw)), trace, kept


def advance(kind, algo, budget, case, wire):
    if case["bar"] == "given" and kind not in ADMMS and kind not in DESCENT:
        return algo.iterate(max_iter=budget, progbar=WiredBar(wire))
    return algo.iterate(max_iter=budget)


def outcome(kind, case):
    """What a run on its own does: (rows, number of calls, their names)."""
    wire = Wire()
    build, trace, _ = supplied(kind, wire, case)
    algo = build()
    made = wire.count
    advance(kind, algo, case["budget"], case, wire)
    return trace.rows, wire.count, made, wire.names


def same(obs, got, want, what):
    obs.check(len(got) == len(want), "{}: {} metric values instead of {}", what, len(got), len(want))
    for one, two in zip(got, want):
        for name in two:
            obs.close(one[name], two[name], f"{what}: {name}")


BASE = {}


def solver(case, obs):
    """One failing call in one run."""
    kind = case["kind"]
    key = (kind, case["cost"], case["bar"], case["early"], case["period"], case["budget"])
    if key not in BASE:
        BASE[key] = outcome(kind, case)
    base, total, made, names = BASE[key]
    for at in range(total) if case["at"] is None else [case["at"]]:
        wire = Wire(at, case["fault"])
        build, trace, kept = supplied(kind, wire, case)
        before = [a.copy() for a in kept]
        caught, algo = None, None
        try:
            algo = build()
            advance(kind, algo, case["budget"], case, wire)
        except BaseException as exc:  # noqa: B902
            caught = exc
        what = f"{kind}, call {at} ({names[at]})"
        obs.check(caught is wire.fault, "{}: {!r} instead of the exception raised", what, caught)
        obs.check(wire.count == at + 1 and wire.names == names[: at + 1], "{}: calls {} after the failure", what, wire.names[at:])
        for a, b in zip(kept, before):
            obs.exact(a, b, f"{what}: array of the caller")
        # what was reported before the failure stands
        same(obs, trace.rows, base[: len(trace.rows)], what)
        # the solver can be used again
        for gap in range(case.get("again", 0) if algo is not None else 0):
            # fails over and over before it is used again
            wire.at = wire.count + gap
            caught = None
            try:
                advance(kind, algo, case["budget"], case, wire)
            except BaseException as exc:  # noqa: B902
                caught = exc
            obs.check(caught is wire.fault or wire.count <= wire.at, "{}, then {} calls later: {!r}", what, gap, caught)
            obs.check(wire.count <= wire.at + 1, "{}, then {} calls later: calls after the failure", what, gap)
        if algo is not None:
            wire.at = None
            done = len(trace.rows)
            advance(kind, algo, case["budget"], case, wire)
            runs = [int(r["idx"]) for r in trace.rows[done:]]
            obs.check(runs == [int(r["idx"]) for r in base], "{}: metrics at iterations {} afterwards", what, runs)
            obs.check(all(np.all(np.isfinite(v)) for r in trace.rows for v in r.values()), "{}: values that are not finite", what)
            for a, b in zip(kept, before):
                obs.exact(a, b, f"{what}: array of the caller, afterwards")
            report = algo.metrics["m"]
            obs.check(len(report["index"]) == len(report["values"]) == len(report["time"]), "{}: {} iterations, {} values, {} times",
                      what, len(report["index"]), len(report["values"]), len(report["time"]))
            # a row whose metric failed has no value
            shown = [r["idx"] for r in trace.rows]
            obs.check([int(i) for i in report["index"]] == [int(i) for i in shown], "{}: values for iterations {} instead of {}",
                      what, report["index"], shown)
            obs.check([float(v) for v in report["values"]] == [k + 1.0 for k in range(len(shown))], "{}: values {}", what, report["values"])
        obs.state(kind, at, names[at], case["fault"])
    # another solver knows nothing of it
    rows, count, _, _ = outcome(kind, case)
    obs.check(count == total, "{}: {} calls instead of {} in a later run", kind, count, total)
    same(obs, rows, base, f"{kind}, later run")
    obs.outcome(kind, total, made)


def _ops(wire):
    return Linear(np.array([[1.0, 0.5, 0.0], [0.0, 1.0, -1.0], [1.0, 0.0, 2.0]]))


def wired(wire, inst, *names):
    for name in names:
        setattr(inst, name, wire(name, getattr(inst, name)))
    return inst


X = np.array([1.0, -2.0, 0.5])


def _observers(wire):
    subject = Observable(["s"])
    seen = []
    for name in "abc":
        subject.add_observer("s", wire(name, lambda sig, n=name: seen.append(n)))
    subject.notify_observers("s", x=1)
    subject.notify_observers("s", x=2)
    return [seen.count(n) for n in "abc"]


def _metric(wire):
    subject = Observable(["cv_metrics"])
    watcher = MetricObserver("m", wire("metric", lambda x: x), {"x": "x"}, {}, wind=2, eps=0.1)
    subject.add_observer("cv_metrics", watcher)
    for k in range(5):
        subject.notify_observers("cv_metrics", x=1.0 + k, idx=k)
    return watcher.retrieve_metrics()["values"]


def _svd(wire):
    gen = np.random.default_rng(3)
    cube = gen.normal(size=(4, 3, 3))
    return svd_thresh_coef(cube.reshape(4, 9).T, wire("operator", lambda a: a.reshape(a.shape[0], 3, 3)), 0.3)


class Two:
    """Two members of a combination."""

    def __init__(self, wire):
        self.members = [wired(wire, _ops(wire), "op", "adj_op") for _ in range(2)]


OPERATIONS = {
    "linear combination": lambda w: LinearCombo(Two(w).members).op(X),
    "adjoint of a combination": lambda w: LinearCombo(Two(w).members).adj_op(LinearCombo([_ops(w), _ops(w)]).op(X)),
    "proximity combination": lambda w: ProximityCombo([wired(w, Prox(lambda x, f: x * f), "op", "cost") for _ in range(3)]).op(
        np.array([X, X, X])),
    "cost of a combination": lambda w: ProximityCombo(
        [wired(w, Prox(lambda x, f: x, lambda x: 2.0), "op", "cost") for _ in range(3)]).cost(np.array([X, X, X])),
    "composition": lambda w: LinearCompositionProx(wired(w, Linear(np.eye(3)), "op", "adj_op"), wired(w, Prox(lambda x, f: x / 2), "op")).op(X),
    "cost of a composition": lambda w: LinearCompositionProx(
        wired(w, Linear(np.eye(3)), "op", "adj_op"), wired(w, Prox(lambda x, f: x / 2, lambda x: 3.0), "cost")).cost(X),
    "sparse threshold": lambda w: [f(X) for s in [SparseThreshold(wired(w, _ops(w), "op"), np.ones(3))] for f in (s.op, s.cost)],
    "ridge": lambda w: [f(X) for s in [Ridge(wired(w, _ops(w), "op"), np.ones(3))] for f in (s.op, s.cost)],
    "elastic net": lambda w: [f(X) for s in [ElasticNet(wired(w, _ops(w), "op"), 1.0, np.ones(3))] for f in (s.op, s.cost)],
    "low rank": lambda w: LowRankMatrix(0.3, lowr_type="ngole", operator=w("operator", lambda a: 1.0 * a)).op(
        np.arange(18.0).reshape(2, 3, 3)),
    "gradient": lambda w: [g.get_grad(X) or g.grad.copy() for g in [GradBasic(X, w("op", lambda x: 2 * x), w("adj", lambda x: 3 * x))]],
    "cost of the gradient": lambda w: GradBasic(X, w("op", lambda x: 2 * x), w("adj", lambda x: 3 * x)).cost(X),
    "cost object": lambda w: [c.get_cost(X) or c.cost for c in [costObj(
        [wired(w, Prox(None, lambda x: float(np.sum(x))), "cost") for _ in range(3)], verbose=False)] for _ in range(4)],
    "power method": lambda w: [p.get_spec_rad(max_iter=4, tolerance=0.0) or p.spec_rad
                               for p in [PowerMethod(w("operator", lambda x: x * np.array([1.0, 3.0, 2.0])), (3,), auto_run=False,
                                                     rng=1)]],
    "automatic power method": lambda w: PowerMethod(w("operator", lambda x: x * np.array([1.0, 3.0, 2.0])), (3,), rng=1).spec_rad,
    "transpose test": lambda w: transpose_test(w("op", lambda x, a: x), w("adj", lambda x, a: x), (3,), rng=1),
    "observers": _observers,
    "metric observer": _metric,
    "coefficient thresholds": _svd,
}


def operation(case, obs):
    """One failing call in one operation; the operation works the next time."""
    fun = OPERATIONS[case["name"]]
    wire = Wire()
    want = fun(wire)
    total = wire.count
    obs.check(total > 0, "nothing was called")
    for at in range(total):
        wire = Wire(at, case["fault"])
        caught = None
        try:
            fun(wire)
        except BaseException as exc:  # noqa: B902
            caught = exc
        what = f"{case['name']}, call {at}"
        obs.check(caught is wire.fault, "{}: {!r} instead of the exception raised", what, caught)
        obs.check(wire.count == at + 1, "{}: {} calls after the failure", what, wire.count - at - 1)
        got = fun(Wire())
        for a, b in zip(_flat(got), _flat(want)):
            obs.close(a, b, f"{what}: afterwards")
        obs.exact(X, [1.0, -2.0, 0.5], f"{what}: array of the caller")
        obs.state(case["name"], at, case["fault"])
    obs.outcome(case["name"], total)


def _flat(value):
    if isinstance(value, (list, tuple)) or (isinstance(value, np.ndarray) and value.dtype == object):
        return [leaf for part in value for leaf in _flat(part)]
    return [] if value is None else [value]


KEEP = {
    # an instance that goes on after a failure: what it returns before, and with the failure taken back
    "cost object": lambda w: (lambda c: lambda x: (c.get_cost(x), c.cost)[1])(
        costObj([wired(w, Prox(None, lambda x: float(np.sum(x * x))), "cost")], verbose=False)),
    "gradient": lambda w: (lambda g: lambda x: (g.get_grad(x), g.grad.copy(), g.cost(x))[1:])(
        GradBasic(X, w("op", lambda x: 2 * x), w("adj", lambda x: 3 * x))),
    "combination": lambda w: (lambda p: lambda x: p.op(np.array([x, 2 * x])))(
        ProximityCombo([wired(w, Prox(lambda x, f: x * f), "op") for _ in range(2)])),
    "linear combination": lambda w: (lambda p: lambda x: p.op(x))(LinearCombo(Two(w).members)),
    "composition": lambda w: (lambda p: lambda x: p.op(x))(
        LinearCompositionProx(wired(w, Linear(np.eye(3)), "op", "adj_op"), wired(w, Prox(lambda x, f: x / 2), "op"))),
    "power method": lambda w: (lambda p: lambda x: (p.get_spec_rad(max_iter=3), p.spec_rad)[1])(
        PowerMethod(w("operator", lambda x: x * np.array([1.0, 3.0, 2.0])), (3,), auto_run=False, rng=1)),
    "low rank": lambda w: (lambda p: lambda x: p.op(np.add.outer(x, np.arange(4.0).reshape(2, 2))))(
        LowRankMatrix(0.3, lowr_type="ngole", operator=w("operator", lambda a: 1.0 * a))),
}


def going_on(case, obs):
    """Failing calls (1) among good ones (0) on one instance."""
    name = case["name"]
    points = [data((3,), k) for k in range(len(case["word"]))]
    wire = Wire(None, case["fault"])
    inst = KEEP[name](wire)
    for k, (letter, x) in enumerate(zip(case["word"], points)):
        wire.at = wire.count + case["offset"] if letter == "1" else None
        before, caught, got = x.copy(), None, None
        try:
            got = inst(x)
        except BaseException as exc:  # noqa: B902
            caught = exc
        hit = wire.at is not None and wire.count > wire.at
        obs.check((caught is wire.fault) if hit else caught is None, "{}, call {}: {!r}", name, k, caught)
        if not hit and name != "power method":
            fresh = KEEP[name](Wire())(x)
            for a, b in zip(_flat(got), _flat(fresh)):
                obs.close(a, b, f"{name} after failures {case['word'][:k]}")
        elif not hit:
            obs.check(0 < got <= 3 + 1e-9, "spectral radius {}", got)
        obs.exact(x, before, "argument")
        obs.state(name, case["word"][: k + 1], case["offset"])
    obs.outcome(name, case["word"])


def run(ctx):
    cases = []
    for kind in ALL:
        bars = ("none",) if kind in ADMMS or kind in DESCENT else ("none", "given")
        for cost, bar, early, period, budget in itertools.product((None, "object", "auto"), bars, (False, True), (1, 2),
                                                                  ctx.pick((3,), (1, 3, 6))):
            if cost == "auto" and (kind in DESCENT or kind in ADMMS):
                continue
            for fault in FAULTS:
                cases.append(dict(kind=kind, cost=cost, bar=bar, early=early, period=period, budget=budget, fault=fault, at=None))
    ctx.explore("every call of every run", cases, solver)
    cases = [dict(kind=k, cost="object", bar="none", early=e, period=1, budget=2, fault=f, at=None, again=n)
             for k in ALL for e in (False, True) for f in ("special", "interrupt") for n in ctx.pick((2, 6), (1, 2, 3, 4, 6, 9, 12))]
    ctx.explore("several failing calls in one run", cases, solver)
    cases = [dict(name=n, fault=f) for n in OPERATIONS for f in FAULTS]
    ctx.explore("every call of every operation", cases, operation)
    length = ctx.pick(4, 6)
    cases = [dict(name=n, word="".join(w), fault=f, offset=o) for n in KEEP for w in itertools.product("01", repeat=length)
             for f in ("special", "interrupt") for o in (0, 1)]
    ctx.explore("failing calls among others", cases, going_on)
    ctx.assumptions += ["StopIteration is left out: Python itself turns it into RuntimeError inside generators"]
