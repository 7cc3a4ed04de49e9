"""C09: cost objects: value, schedule and windowed convergence test."""

import itertools
import os
import tempfile

import numpy as np

from modopt.opt.cost import CostParent, costObj

from ..common import MAGNITUDES
from ..core import Pruned


class Op:
    """Operator with a scripted cost."""

    def __init__(self, fn):
        self.fn, self.seen = fn, []

    def cost(self, *args, **kwargs):
        self.seen.append((args, dict(kwargs)))
        return self.fn(args[0])


class Child(CostParent):
    """User-defined cost."""

    def _calc_cost(self, *args, **kwargs):
        return args[0] * 1.0


def model(values, interval, size, tolerance, initial):
    """(cost, convergence answer) after every call."""
    cost, window, out = initial, [], []
    for number, value in enumerate(values, 1):
        answer = False
        if interval is not None and number % interval == 0:
            cost = value
            window.append(value)
            if len(window) == size:
                new = np.mean(window[size // 2:])
                old = np.mean(window[: size // 2])
                change = abs(new - old) / abs(new) if new != 0 else 0.0
                if 0 < abs(new) < 1e-12 * max(map(abs, window)) or (
                        0 < abs(change - tolerance) < 1e-10):
                    raise Pruned("boundary")
                answer = bool(change <= tolerance)
                window = []
        out.append((cost, answer))
    return out


def machine(case, obs):
    values, interval = case["values"], case["interval"]
    size, tolerance = case["range"], case["tolerance"]
    kwargs = dict(cost_interval=interval, test_range=size, tolerance=tolerance,
                  verbose=case["verbose"])
    if case["initial"] is not None:
        kwargs["initial_cost"] = case["initial"]
    initial = 1e6 if case["initial"] is None else case["initial"]
    want = model(values, interval, size, tolerance, initial)
    if case["ops"] == "child":
        inst, ops = Child(**kwargs), []
    else:
        shares = {"one": [1.0], "two": [0.25, 0.75], "three": [2.0, -1.5, 0.5]}[case["ops"]]
        ops = [Op(lambda x, s=s: s * x) for s in shares]
        inst = costObj(ops if case["wrap"] == "list" else tuple(ops), **kwargs)
    obs.close(inst.cost, initial, "initial cost")
    calls = 0
    named = {"weight": 3.0} if case.get("named") else {}
    for k, (value, (cost, answer)) in enumerate(zip(values, want), 1):
        got = inst.get_cost(value, "extra", **named)
        obs.close(inst.cost, cost, f"cost after call {k}", rtol=1e-12, atol=1e-300)
        obs.check(bool(got) == answer, "answer {} at call {} instead of {}", got, k, answer)
        due = interval is not None and k % interval == 0
        calls += due
        for op in ops:
            obs.check(len(op.seen) == calls, "operator cost evaluated {} times instead of {}",
                      len(op.seen), calls)
            if due:
                args, more = op.seen[-1]
                obs.check(args == (value, "extra"), "operator cost called with {}", args)
                obs.check(all(more.get(n) == v for n, v in named.items()), "operator cost called with {}", more)
        obs.state(interval, size, tolerance, k, cost, answer)
    obs.outcome([a for _, a in want])


def members(case, obs):
    """Operators whose costs vary independently: every one counts at every evaluation."""
    words = case["words"]
    ops = [Op(lambda k, n=n: words[k][n]) for n in range(len(words[0]))]
    inst = costObj(ops, verbose=False, cost_interval=1, test_range=case["range"], tolerance=-1.0)
    for k, word in enumerate(words):
        obs.check(not inst.get_cost(k), "convergence reported at call {}", k + 1)
        obs.close(inst.cost, sum(word), f"cost after call {k + 1}", rtol=1e-12, atol=1e-300)
        obs.check(all([a[0] for a, _ in op.seen] == list(range(k + 1)) for op in ops), "not every operator evaluated once")
        obs.state(words[: k + 1])
    obs.outcome([sum(w) for w in words])


def plots(case, obs):
    """The plot shows the logarithm of every recorded cost, in the named file."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    values = [case["scale"] * (1.0 + (k * 37) % 11 + 1.0 / (k + 1)) for k in range(case["number"])]
    interval = case["interval"]
    shown, real, here = [], Figure.savefig, os.getcwd()

    def savefig(self, *args, **kwargs):
        shown.append([np.array(line.get_ydata(), float) for ax in self.axes for line in ax.lines])
        return real(self, *args, **kwargs)

    inst = Child(cost_interval=interval, test_range=4, tolerance=0.0, verbose=False,
                 plot_output=case["output"])
    want, mine = [], None
    with tempfile.TemporaryDirectory() as place:
        try:
            if case.get("open"):
                mine = plt.figure()
                mine.gca().plot([3.0, 4.0, 7.0])
            os.chdir(place)
            Figure.savefig = savefig
            os.mkdir("sub")
            for k, value in enumerate(values, 1):
                inst.get_cost(value)
                if k % interval == 0:
                    want.append(value)
                if k in (len(values) // 2, len(values)) and want:
                    before = plt.get_fignums()
                    inst.plot_cost()
                    name = f"{case['output']}_cost_function.png" if case["output"] else "cost_function.png"
                    there = sorted(os.path.relpath(os.path.join(d, f)) for d, _, fs in os.walk(".") for f in fs)
                    obs.check(there == [name], "plot written to {} instead of {}", there, name)
                    with open(name, "rb") as handle:
                        obs.check(handle.read(8) == b"\x89PNG\r\n\x1a\n", "the plot is not an image")
                    obs.check(len(shown) == 1 and len(shown[0]) == 1, "{} plots of {} lines", len(shown),
                              [len(s) for s in shown])
                    obs.close(shown[0][0], np.log10(want), "plotted costs", rtol=1e-12, atol=1e-12)
                    obs.check(plt.get_fignums() == before, "figures {} open instead of {}", plt.get_fignums(), before)
                    if mine is not None:
                        left = [list(line.get_ydata()) for ax in mine.axes for line in ax.lines]
                        obs.check(left == [[3.0, 4.0, 7.0]], "another figure changed to {}", left)
                    del shown[:]
                obs.state(case["interval"], len(want), case["output"])
        finally:
            Figure.savefig = real
            os.chdir(here)
            if mine is not None:
                plt.close(mine)
    obs.outcome(want[-1:])


def run(ctx):
    length = ctx.pick(6, 8)
    base = dict(verbose=False, initial=None, ops="two", wrap="list")
    cases = [
        dict(base, values=list(v), interval=1, range=r, tolerance=t)
        for v in itertools.product([0.0, 1.0, 2.0, -1.0], repeat=length)
        for r in (2, 3, 4) for t in (0.0, 0.5, 1e-4)
    ]
    ctx.explore("all cost histories", cases, machine)
    cases = [
        dict(base, values=list(v), interval=i, range=r, tolerance=t, ops=o)
        for v in itertools.product([1.0, 3.0], repeat=ctx.pick(9, 12)) for i in (1, 2, 3, None)
        for r in (2, 3, 4) for t in (0.4,) for o in ("child", "three")
    ]
    cases += [
        dict(base, values=list(v), interval=i, range=2, tolerance=0.4, ops=o, named=True, verbose=b)
        for v in itertools.product([1.0, 3.0], repeat=4) for i in (1, 2) for o in ("one", "two", "three") for b in (False, True)
    ]
    ctx.explore("all intervals and windows", cases, machine)
    few = [0.0, 1.0, -1.0]
    cases = [
        dict(words=[list(w) for w in words], range=r)
        for n, depth in ctx.pick(((1, 5), (2, 3), (3, 2)), ((1, 8), (2, 4), (3, 3), (4, 2)))
        for words in itertools.product(itertools.product(few, repeat=n), repeat=depth) for r in (2, 4)
    ]
    ctx.explore("members whose costs vary independently", cases, members)
    long = [
        [1.0 + 1.0 / (k + 1) for k in range(60)], [2.0**-k for k in range(40)],
        [float(k % 7) for k in range(60)], [5.0] * 45, [1e8 * (1 + 0.5**k) for k in range(50)],
        [1e-5 * (1 + 0.5**k) for k in range(50)], [-3.0 + 1.0 / (k + 1) for k in range(60)],
        [0.0] * 30, [1.0, 0.99995] * 20, [1.0, 1.0, 0.9997, 0.9997] * 10,
    ]
    cases = [
        dict(values=v, interval=i, range=r, tolerance=t, verbose=b, initial=init, ops=o, wrap=w)
        for v in long for i in (1, 2, 5, 7, 10, None) for r in (2, 4, 5, 6, 10)
        for t in (1e-4, 1e-2, 0.3) for b in (False, True) for init in (None, 42.0)
        for o in ("one", "three", "child") for w in ("list", "tuple")
    ]
    ctx.explore("long histories", cases, machine)
    cases = [
        dict(base, values=[scale * x for x in v], interval=i, range=r, tolerance=t, ops=o)
        for scale in MAGNITUDES if 1e-130 < scale < 1e130
        for v in itertools.product([1.0, 2.0, 1.0 + 2**-14, -1.0], repeat=ctx.pick(4, 6)) for i in (1, 2)
        for r in (2, 4) for t in (0.0, 1e-4, 0.5) for o in ("two", "child")
    ]
    ctx.explore("costs of every magnitude", cases, machine)
    odd = [1.0, float("nan"), float("inf"), float("-inf"), 0.0]
    cases = [
        dict(base, values=list(v), interval=i, range=r, tolerance=t, ops=o)
        for v in itertools.product(odd, repeat=ctx.pick(4, 6)) for i in (1,) for r in (2, 3, 4)
        for t in (0.0, 1e-4, 2.0) for o in ("one", "child")
    ]
    cases += [
        dict(base, values=list(v), interval=i, range=r, tolerance=1e-4, ops="one", odd="int")
        for v in itertools.product([0, 1, 2, True], repeat=4) for i in (1, 2) for r in (2, 4)
    ]
    ctx.explore("costs that are not finite or not floating point", cases, machine)
    cases = [
        dict(number=n, interval=i, output=o, scale=s)
        for n in (2, 13) for i in (1, 3) for o in (None, "a", "sub/b", "with.dot") for s in (1.0, 1e-9, 1e9)
        if n > i
    ] + [dict(number=n, interval=1, output="long", scale=1.0) for n in (150, 1501)]
    cases += [dict(number=5, interval=i, output=o, scale=1.0, open=True) for i in (1, 2) for o in (None, "a")]
    ctx.explore("plots of the recorded costs", cases, plots)
    ctx.assumptions += ["histories whose relative change equals the tolerance up to rounding "
                        "(but not exactly) are left out"]
