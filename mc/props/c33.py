"""C33: what is printed, and when."""

import contextlib
import io
import itertools
import logging
import os
import re
import shutil
import tempfile
import warnings

import numpy as np

from modopt.base.types import check_npndarray
from modopt.interface.log import close_log, set_up_log
from modopt.math.matrix import PowerMethod
from modopt.opt.algorithms import Condat
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity
from modopt.opt.proximity import (ElasticNet, GroupLASSO, IdentityProx, KSupportNorm, LinearCompositionProx, LowRankMatrix,
                                  OrderedWeightedL1Norm, Positivity, ProximityCombo, Ridge, SparseThreshold)
from modopt.opt.reweight import cwbReweight

from ..common import data, words
from ..solvers import ADMMS, ALL, DESCENT, ScriptedCost, World, make
from .c07 import Bar

NUMBER = re.compile(r"[-+]?(?:inf|nan|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)")


@contextlib.contextmanager
def hearing():
    """Collects standard output and standard error."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield lambda: (out.getvalue(), err.getvalue())


def last(line):
    """The number at the end of a line."""
    found = NUMBER.findall(line.split(":")[-1])
    return float(found[-1]) if found else None


class Op:
    """A multiple of the identity."""

    def __init__(self, factor):
        self.factor = factor

    def op(self, x):
        return self.factor * x

    def adj_op(self, x):
        return self.factor * x


def sparse():
    return SparseThreshold(Op(2.0), np.array([0.5, 1.0, 0.0, 2.0]))


# name -> operator, whether the report holds the cost itself
COSTS = {
    "identity": (IdentityProx, None),
    "positivity": (Positivity, "min"),
    "sparse": (sparse, "cost"),
    "ridge": (lambda: Ridge(Op(2.0), np.array([0.5, 1.0, 0.0, 2.0])), "cost"),
    "elastic net": (lambda: ElasticNet(Op(2.0), 0.3, np.array([0.5, 1.0, 0.0, 2.0])), "cost"),
    "owl": (lambda: OrderedWeightedL1Norm(np.array([2.0, 1.0, 0.5, 0.0])), "cost"),
    "k-support": (lambda: KSupportNorm(0.5, 2), "cost"),
    "group": (lambda: GroupLASSO(np.array([0.5, 1.0, 0.0, 2.0])), None),
    "low rank": (lambda: LowRankMatrix(0.7), "cost"),
    "composition": (lambda: LinearCompositionProx(Op(2.0), sparse()), "cost"),
    "combo": (lambda: ProximityCombo([sparse(), sparse()]), "maybe"),
    "gradient": (lambda: GradBasic(np.array([1.0, 2.0, -1.0, 0.5]), lambda x: 2 * x, lambda x: 2 * x, verbose=False), "cost"),
}


def point(name, seed):
    if name == "low rank":
        return data((2, 3, 3), seed)
    if name in ("combo", "group"):
        return np.array([data((4,), seed), data((4,), seed + 1)])
    return data((4,), seed)


def operator_cost(case, obs):
    """An operator's cost, in every order of asking loudly and quietly."""
    build, report = COSTS[case["name"]]
    inst = build()
    for i, verb in enumerate(case["word"]):
        x = point(case["name"], 3 * i + 1)
        kw = {"-": {}, "q": {"verbose": False}, "v": {"verbose": True}, "1": {"verbose": 1}, "0": {"verbose": 0}}[verb]
        with hearing() as heard:
            value = inst.cost(x, **kw)
        out, err = heard()
        obs.check(err == "", "{}: {!r} on standard error", case["name"], err)
        if verb in "-q0":
            obs.check(out == "", "{}: printed {!r} unasked", case["name"], out)
        elif report == "maybe":
            obs.check(all(last(line) is not None for line in out.splitlines()), "{}: printed {!r}", case["name"], out)
        elif report is not None:
            lines = out.splitlines()
            obs.check(len(lines) == 1 and last(lines[0]) is not None, "{}: printed {!r}", case["name"], out)
            want = np.min(x) if report == "min" else value
            obs.close(last(lines[0]), want, f"{case['name']}: reported value", rtol=1e-6)
        obs.state(case["name"], i, verb)
    obs.outcome(case["name"], case["word"])


class Talker:
    """A cost operator that notes whether it was asked to talk."""

    def __init__(self, values):
        self.values, self.asked = values, []

    def cost(self, *args, **kwargs):
        self.asked.append(bool(kwargs.get("verbose", False)))
        return self.values[min(len(self.asked), len(self.values)) - 1]


def cost_object(case, obs):
    """The cost object's report: every evaluation, every test, nothing else."""
    values = [float(v) for v in case["word"]]
    first, second = Talker(values), Talker([2 * v for v in values])
    kw = {} if case["verbose"] == "default" else {"verbose": case["verbose"]}
    inst = costObj([first, second], cost_interval=case["interval"], test_range=case["window"], **kw)
    loud = bool(case["verbose"])
    window = []
    for it in range(1, len(values) * (case["interval"] or 1) + 1):
        with hearing() as heard:
            inst.get_cost(np.zeros(2))
        out, err = heard()
        obs.check(err == "", "{!r} on standard error", err)
        due = case["interval"] is not None and it % case["interval"] == 0
        if not loud or not due:
            obs.check(out == "", "iteration {}: printed {!r} unasked", it, out)
        lines = [line for line in out.splitlines() if line.strip()]
        if due:
            window.append(inst.cost)
            full = len(window) == case["window"]
            if loud:
                numbers = [last(line) for line in lines if last(line) is not None]
                half = case["window"] // 2
                if full:
                    new, old = np.mean(window[half:]), np.mean(window[:half])
                    change = abs(new - old) / abs(new) if new else 0.0
                want = [it, inst.cost] + ([change] if full else [])
                obs.check(len(numbers) == len(want), "iteration {}: report {!r}", it, out)
                obs.close(numbers, want, f"report of iteration {it}", rtol=1e-6)
            if full:
                window = []
            obs.check(first.asked[-1] == loud and second.asked[-1] == loud, "operators were asked to talk: {} {}",
                      first.asked[-1], second.asked[-1])
        obs.state(case["word"][:it], case["interval"], case["window"], loud)
    obs.outcome(case["word"], case["interval"])


def solver(case, obs):
    """A solver reports convergence, once, and shows a bar if told to."""
    cost = ScriptedCost(case["word"]) if case["kind"] not in ADMMS else None
    counter = []

    def metric(idx):
        counter.append(idx)
        return [1.0, 5.0, 9.0][len(counter) % 3] if case["kind"] not in ADMMS or "1" not in case["word"] else 1.0

    metrics = {"m": {"metric": metric, "mapping": {"idx": "idx"}, "cst_kwargs": {}, "early_stopping": case["kind"] in ADMMS}}
    with hearing() as heard:
        algo = make(case["kind"], World(), cost=cost, metrics=metrics, metric_call_period=1, verbose=case["verbose"],
                    progress=case["progress"])
    heard_at_first = heard()
    obs.check(heard_at_first[0] == "", "{}: printed {!r} at construction", case["kind"], heard_at_first[0])
    for budget in case["plan"]:
        before = len(counter)
        bar = Bar() if case["bar"] else None
        with hearing() as heard:
            algo.iterate(max_iter=budget, **({"progbar": bar} if bar else {}))
        out, err = heard()
        done = len(counter) - before
        stopped = bool(algo.converge)
        lines = out.splitlines()
        want = 1 if stopped and case["verbose"] else 0
        obs.check(len(lines) == want, "{}: printed {!r} after {} iterations, converged: {}", case["kind"], out, done, stopped)
        obs.check(all("onverged" in line for line in lines), "{}: printed {!r}", case["kind"], out)
        if bar is not None:
            obs.check(done - stopped <= bar.n <= done, "{}: the bar is at {} after {} iterations", case["kind"], bar.n, done)
            obs.check(err == "", "{}: {!r} on standard error", case["kind"], err)
        elif not case["progress"]:
            obs.check(err == "", "{}: {!r} on standard error", case["kind"], err)
        else:
            marks = re.findall(r"(\d+)/(\d+)", err)
            obs.check(marks and all(int(total) == budget for _, total in marks), "{}: bar {!r} for {} iterations", case["kind"],
                      err, budget)
            obs.check(done - stopped <= int(marks[-1][0]) <= done, "{}: bar {!r} after {} iterations", case["kind"], err, done)
        obs.state(case["kind"], budget, done, case["verbose"])
    obs.outcome(case["kind"], stopped, case["verbose"])


def reweighted(case, obs):
    """The bar of a reweighted run starts over with every round."""
    world, bar = World(), Bar()
    resets = []
    reset = bar.reset

    def noted(total=None):
        resets.append((bar.n, total))
        reset(total)

    bar.reset = noted
    weights = cwbReweight(np.ones(3), verbose=case["verbose"])
    algo = Condat(world.x0, world.x0, world.grad(), world.prox(), world.prox(), linear=world.linear(), cost=None,
                  reweight=weights, auto_iterate=False, progress=False)
    rounds = 0
    for budget, n in case["plan"]:
        bar.n = 0
        del resets[:]
        with hearing() as heard:
            algo.iterate(max_iter=budget, n_rewightings=n, progbar=bar)
        out, err = heard()
        obs.check(resets == [(budget, budget)] * n, "the bar was reset at {}", resets)
        obs.check(bar.n == budget, "the bar is at {} of {}", bar.n, budget)
        numbers = [last(line) for line in out.splitlines()]
        want = list(range(rounds + 1, rounds + n + 1)) if case["verbose"] else []
        obs.check(numbers == want and err == "", "reported rounds {!r} instead of {}", out, want)
        rounds += n
        obs.state(budget, n, case["verbose"], rounds)
    obs.outcome(str(case["plan"]), case["verbose"])


def power(case, obs):
    """The power method reports how many iterations it took."""
    calls = []

    def op(x):
        calls.append(1)
        return np.array([1.0, case["gap"]]) * x

    inst = PowerMethod(op, (2,), auto_run=False, verbose=case["verbose"], rng=case["seed"])
    for budget in case["budgets"]:
        del calls[:]
        with hearing() as heard:
            inst.get_spec_rad(tolerance=case["tol"], max_iter=budget)
        out, err = heard()
        obs.check(err == "", "{!r} on standard error", err)
        if not case["verbose"]:
            obs.check(out == "", "printed {!r} unasked", out)
        else:
            lines = out.splitlines()
            found = [int(n) for n in re.findall(r"\d+", lines[0])] if len(lines) == 1 else []
            obs.check(found == [len(calls)], "report {!r} after {} iterations", out, len(calls))
            if len(calls) < budget:
                obs.check("not" not in out, "report {!r} though the run converged", out)
        obs.state(case["gap"], budget, len(calls))
    obs.outcome(case["gap"], case["tol"])


def logs(case, obs):
    """Opening and closing a log names it, when asked to."""
    here = tempfile.mkdtemp()
    try:
        kw = {} if case["open"] is None else {"verbose": case["open"]}
        name = os.path.join(here, case["name"])
        with hearing() as heard:
            log = set_up_log(name, **kw)
        out, err = heard()
        loud = case["open"] is None or case["open"]
        obs.check((case["name"] + ".log" in out and len(out.splitlines()) == 1) if loud else out == "",
                  "opening printed {!r}", out)
        with hearing() as heard:
            log.info("message")
        obs.check(heard() == ("", ""), "a message was printed: {}", heard())
        kw = {} if case["close"] is None else {"verbose": case["close"]}
        with hearing() as heard:
            close_log(log, **kw)
        out, err = heard()
        loud = case["close"] is None or case["close"]
        obs.check((case["name"] in out and len(out.splitlines()) == 1) if loud else out == "", "closing printed {!r}", out)
        obs.check(err == "", "{!r} on standard error", err)
        obs.state(case["name"], case["open"], case["close"])
        obs.outcome(case["open"], case["close"])
    finally:
        logging.captureWarnings(False)
        shutil.rmtree(here)


def locking(case, obs):
    """Making an array read-only is announced, when asked to and needed."""
    x = np.ones(3)
    for writeable, verbose in case["plan"]:
        was = x.flags.writeable
        if writeable and not was:
            x = x.copy()
            was = True
        with hearing() as heard:
            check_npndarray(x, writeable=writeable, verbose=verbose)
        out, err = heard()
        obs.check(out == "" and (err != "") == (was and not writeable and verbose),
                  "from {} to {}, verbose {}: {!r}", was, writeable, verbose, err)
        obs.check(x.flags.writeable == writeable, "the array is writeable: {}", x.flags.writeable)
        obs.state(was, writeable, verbose)
    obs.outcome(str(case["plan"]))


SLOTS = {"condat": ("grad", "prox", "prox2", "linear", "cost"), "genfb": ("grad", "prox", "prox2", "cost")}


def parents(case, obs):
    """Operators of unknown descent are announced, the others are not."""
    w = World((2,))
    given = {"grad": w.grad(), "prox": w.prox(), "prox2": w.prox(0.3), "linear": w.linear(), "cost": ScriptedCost("0000")}
    proper = {"grad": GradBasic(w.target, lambda x: x, lambda x: x, verbose=False), "prox": IdentityProx(),
              "prox2": IdentityProx(), "linear": Identity(), "cost": costObj([IdentityProx()], verbose=False)}
    kinds = dict(zip(SLOTS.get(case["kind"], ("grad", "prox", "cost")), case["slots"]))
    expect = []
    for slot in given:
        kind = kinds.get(slot, "proper")
        if kind == "plain":
            strange = type(f"Strange{slot.capitalize()}X", (type(given[slot]),), {})
            given[slot].__class__ = strange
            expect.append(strange.__name__)
        elif kind == "child":
            known = proper[slot]
            known.__class__ = type("Grandchild", (type("Child", (type(known),), {}),), {})
            given[slot] = known
        elif kind in ("none", "auto"):
            given[slot] = None if kind == "none" else kind
        else:
            given[slot] = proper[slot]
    if case["kind"] in DESCENT:
        given.pop("linear")
    with hearing() as heard:
        make(case["kind"], w, **given)
        out, err = heard()
    obs.check(out == "", "set-up printed {!r}", out)
    lines = [line for line in err.splitlines() if line.strip()]
    obs.check(len(lines) == len(expect), "{} announcements instead of {}: {}", len(lines), len(expect), lines)
    for name in expect:
        obs.check(sum(name in line for line in lines) == 1, "{} is not announced once: {}", name, lines)
    obs.state(case["kind"], tuple(case["slots"]))
    obs.outcome(case["kind"], len(lines))


def singular(case, obs):
    """What the thresholding of singular values says about itself."""
    from modopt.signal.svd import svd_thresh
    values = case["values"]
    left, right = np.linalg.qr(data((4, 4), 3))[0], np.linalg.qr(data((3, 3), 4))[0]
    mat = (left[:, :3] * values) @ right
    kw = {k: case[k] for k in ("threshold", "n_pc") if case[k] is not None}
    with hearing() as heard:
        for _ in range(2):
            svd_thresh(mat, thresh_type=case["type"], **kw)
    out, err = heard()
    obs.check(out == "", "printed {!r}", out)
    lines = err.splitlines()
    kept = [ln for ln in lines if "all" in ln.lower()]
    same = [ln for ln in lines if "change" in ln.lower()]
    pcs = case["n_pc"]
    # the number of components only matters without a threshold
    if case["threshold"] is None and pcs is not None:
        obs.check(len(kept) == (2 if pcs == "all" or pcs >= 3 else 0), "{} components of 3: {!r}", pcs, err)
    elif case["threshold"] is not None:
        obs.check(not kept, "given a threshold: {!r}", err)
    if case["threshold"] is not None:
        low = case["threshold"] < min(values) * (1 - 1e-9)
        silent = case["threshold"] == 0 or (case["type"] == "hard" and low)
        obs.check(len(same) == (2 if silent else 0), "threshold {}: {!r}", case["threshold"], err)
    elif pcs is not None and case["type"] == "hard":
        obs.check(len(same) == (2 if pcs == "all" or pcs >= 3 else 0), "{} components of 3: {!r}", pcs, err)
    elif pcs is not None:
        obs.check(not same, "soft threshold: {!r}", err)
    obs.state(case)
    obs.outcome(bool(kept), bool(same))


def run(ctx):
    cases = []
    for kind in ALL:
        if kind not in ADMMS:
            names = SLOTS.get(kind, ("grad", "prox", "cost"))
            costs = ("proper", "child", "plain", "none") + (() if kind in DESCENT else ("auto",))
            cases += [dict(kind=kind, slots=list(p) + [c]) for p in itertools.product(("proper", "child", "plain"), repeat=len(names) - 1)
                      for c in costs]
    ctx.explore("descent of operators", cases, parents)
    depth = ctx.pick(3, 5)
    cases = [dict(name=n, word=w) for n in COSTS for w in words("-qv10", depth)]
    ctx.explore("costs of operators", cases, operator_cost)
    cases = [dict(word=w, interval=i, window=t, verbose=v) for w in words("0135", ctx.pick(5, 7)) for i in (1, 2, 3, None)
             for t in (2, 4) for v in ("default", True, False)]
    ctx.explore("cost objects", cases, cost_object)
    cases = [dict(kind=k, word=w, plan=p, verbose=v, progress=g, bar=b) for k in ALL for w in words("01", 4)
             for p in ([1], [4], [6], [2, 3], [3, 1, 2]) for v in (False, True) for g in (False, True) for b in (False, True)
             if not (b and (k in ADMMS or k in DESCENT))]
    ctx.explore("solvers", cases, solver)
    plans = [[(b, n)] for b in (1, 2, 4) for n in (0, 1, 2, 3)]
    plans += [list(p) for p in itertools.product([(1, 1), (2, 0), (3, 2)], repeat=2)]
    ctx.explore("reweighted runs", [dict(plan=p, verbose=v) for p in plans for v in (False, True)], reweighted)
    cases = [dict(gap=g, tol=t, budgets=list(b), seed=s, verbose=v) for g in (0.0, 0.3, 0.9, 0.999) for t in (1e-2, 1e-6, 0.0)
             for b in itertools.product((1, 2, 5, 20), repeat=2) for s in range(ctx.pick(4, 20)) for v in (False, True)]
    ctx.explore("power method", cases, power)
    cases = [dict(name=n, open=o, close=c) for n in ("a", "b.c", "with space", "\u00fc") for o in (None, True, False)
             for c in (None, True, False)]
    ctx.explore("log files", cases, logs)
    verbs = list(itertools.product((True, False), repeat=2))
    cases = [dict(plan=list(p)) for n in (1, 2, 3, 4) for p in itertools.product(verbs, repeat=n)]
    ctx.explore("arrays made read-only", cases, locking)

    cases = [dict(values=list(v), threshold=h, n_pc=n, type=t) for v in ((3.0, 2.0, 1.0), (4.0, 0.5, 0.25))
             for h, n in [(h, n) for h in (0.0, 0.1, 0.2, 0.7, 1.5, 2.5, 9.0) for n in (None, 1, "all")]
             + [(None, n) for n in (1, 2, 3, 4, 7, "all")] for t in ("hard", "soft")]
    ctx.explore("thresholding of singular values", cases, singular)
