"""C31: the transpose test tells adjoint pairs from others."""

import contextlib
import io
import itertools
import re

import numpy as np

from modopt.opt.linear import MatrixOperator, WaveletConvolve
from modopt.signal.validation import transpose_test

from ..common import data, matrix

NUMBER = re.compile(r"=\s*(\S+)\s*$")


def ask(*args, **kwargs):
    """The number printed by the transpose test."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        transpose_test(*args, **kwargs)
    return float(NUMBER.search(out.getvalue()).group(1)), out.getvalue()


class Operator:
    """Records what it is given."""

    def __init__(self, fn):
        self.fn, self.seen = fn, []

    def __call__(self, *args):
        value = self.fn(*args)
        self.seen.append((np.array(args[0]), args[1:], np.array(value)))
        return value


ARGS = {
    "none": None, "number": 2.5, "zero": 0, "false": False, "empty": (), "tuple": (2.0, -1.0), "list": [3.0],
    "array": np.array([[2.0, -1.0], [0.5, 1.0]]), "string": "s", "nothing": "",
}


def factor(arg):
    """What the extra argument stands for: a number to multiply with."""
    if isinstance(arg, np.ndarray):
        return float(arg.sum())
    if isinstance(arg, (tuple, list)):
        return 1.0 + sum(arg)
    if isinstance(arg, str):
        return 4.0 + len(arg)
    return 7.0 if arg is None else float(arg)


def source(what):
    return {"none": lambda: None, "generator": lambda: np.random.default_rng(5)}.get(what, lambda: what)()


def pairs(case, obs):
    """Every shape, extra argument and source of randomness."""
    xs, ys = tuple(case["x"]), case["y"] if case["y"] is None else tuple(case["y"])
    out = xs if ys is None else ys
    mat = matrix(int(np.prod(out)), int(np.prod(xs)), 3, case["dtype"])
    size = {"imaginary": 0.5j, "complex": 0.1 - 1j}.get(case["gap"], case["gap"])
    gap = 0 * mat if size == 0 else size * np.abs(matrix(*mat.shape, 7))
    xarg, yarg = ARGS[case["xarg"]], ARGS[case["yarg"]]
    kw = {}
    if case["xarg"] != "none":
        kw["x_args"] = xarg
    if ys is not None:
        kw["y_shape"] = ys
    if case["yarg"] != "none":
        kw["y_args"] = yarg
    yuse = xarg if case["yarg"] == "none" else yarg
    scale = factor(xarg)

    op = Operator(lambda v, a: (scale * (mat @ np.ravel(v))).reshape(out))
    adj = Operator(lambda v, a: (scale * (mat.T + gap.T) @ np.ravel(v)).reshape(xs))
    state = np.random.get_state()[1].copy()
    seen = []
    for _ in range(2):
        op.seen, adj.seen = [], []
        got, text = ask(op, adj, xs, rng=source(case["rng"]), **kw)
        obs.check(len(op.seen) >= 1 and len(adj.seen) >= 1, "an operator was not called")
        x, more, mx = op.seen[0]
        y, ymore, mty = adj.seen[0]
        obs.check(x.shape == xs and y.shape == out, "data of shape {} and {}", x.shape, y.shape)
        obs.check(len(more) == 1 and len(ymore) == 1 and more[0] is xarg and ymore[0] is yuse,
                  "extra arguments {} and {}", more, ymore)
        lhs, rhs = np.sum(mx * y), np.sum(x * mty)
        size = 1e-12 * (1 + float(np.sum(np.abs(mx)) + np.sum(np.abs(mty))))
        obs.close(got, abs(lhs - rhs), "printed difference", rtol=1e-9, atol=size)
        if case["gap"] == 0:
            obs.check(got <= size, "adjoint operators differ by {}", got)
        elif not np.isfinite(size):
            obs.check(not got <= 1e300, "operators without a finite difference differ by {}", got)
        elif scale:
            obs.check(got > 100 * size, "the difference is not noticed: {}", got)
        obs.check(np.ptp(x) > 0 or x.size < 2, "all entries of the data are equal")
        obs.check(np.all(np.isfinite(x)) and np.all(np.isfinite(y)), "data that are not finite")
        if xs == out:
            obs.check(not np.array_equal(x, y), "the same data for both operators")
        seen.append((x, y))
        obs.state(xs, out, case["gap"], case["rng"] if case["rng"] != "none" else None)
    same = np.array_equal(seen[0][0], seen[1][0]) and np.array_equal(seen[0][1], seen[1][1])
    obs.check(same == (case["rng"] != "none"), "source {}: repeated data: {}", case["rng"], same)
    obs.exact(np.random.get_state()[1], state, "global random state")
    obs.outcome(xs, out, case["gap"])


def draws(case, obs):
    """One generator through several tests: its draws are used up in order."""
    gen, ref = np.random.default_rng(case["seed"]), np.random.default_rng(case["seed"])
    shape = tuple(case["shape"])
    kept = []
    for _ in range(3):
        op, adj = Operator(lambda v, a: 2 * v), Operator(lambda v, a: 2 * v)
        got, _ = ask(op, adj, shape, rng=gen)
        obs.check(got <= 1e-12 * np.prod(shape), "adjoint operators differ by {}", got)
        kept += [op.seen[0][0], adj.seen[0][0]]
        want = [ref.random(shape), ref.random(shape)]
        obs.exact(kept[-2], want[0], "first data")
        obs.exact(kept[-1], want[1], "second data")
        obs.state(case["seed"], shape, len(kept))
    for a, b in itertools.combinations(kept, 2):
        obs.check(not np.array_equal(a, b), "the same data twice")
    obs.outcome(case["seed"], shape)


def operators(case, obs):
    """ModOpt's own operators pass, their opposites do not."""
    if case["what"] == "matrix":
        mat = data((3, 4), 2)
        inst, xs, ys = MatrixOperator(mat), (4, 2), (3, 2)
    else:
        inst = WaveletConvolve(data((2, 3, 3), 3))
        xs, ys = (1, 5, 4), (1, 2, 5, 4)
    got, _ = ask(lambda v, a: inst.op(v), lambda v, a: inst.adj_op(v), xs, y_shape=ys, rng=case["seed"])
    obs.check(got < 1e-10, "{}: difference {}", case["what"], got)
    got, _ = ask(lambda v, a: inst.op(v), lambda v, a: -inst.adj_op(v), xs, y_shape=ys, rng=case["seed"])
    obs.check(got > 1e-6, "{}: no difference noticed", case["what"])
    obs.state(case["what"], case["seed"])
    obs.outcome(case["what"])


class Bound:
    """Operators that are methods."""

    def op(self, v, a):
        return 2 * v

    def __call__(self, v, a):
        return 2 * v


CANDIDATES = {
    "function": lambda: (lambda v, a: 2 * v), "method": lambda: Bound().op, "instance": Bound, "none": lambda: None,
    "array": lambda: np.eye(3), "number": lambda: 2.0, "name": lambda: "op", "object": object,
}


def kinds(case, obs):
    """Only things that can be called are accepted, in either place."""
    one, two = CANDIDATES[case["op"]](), CANDIDATES[case["adj"]]()
    if callable(one) and callable(two):
        got, _ = ask(one, two, (3,), rng=1)
        obs.check(got < 1e-12, "difference {}", got)
    else:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            obs.raises(TypeError, lambda: transpose_test(one, two, (3,), rng=1), f"{case['op']} and {case['adj']}")
        obs.check(not NUMBER.search(out.getvalue()), "printed {!r}", out.getvalue())
    obs.state(case["op"], case["adj"])
    obs.outcome(callable(one) and callable(two))


def run(ctx):
    shapes = [((3,), None), ((1,), None), ((2, 2), None), ((3,), (2,)), ((2, 3), (4,)), ((4,), (2, 1, 2)),
              ((2, 1, 3), (2, 1, 3)), ((5,), (1,)), ((2, 2), (2, 2))]
    cases = [dict(x=x, y=y, dtype="float64", gap=g, xarg=a, yarg=b, rng=r)
             for x, y in shapes for g in (0, 1e-3, 1.0) for a in ARGS for b in ARGS for r in ("none", 0, 1, 7, "generator")]
    cases += [dict(x=x, y=y, dtype="complex128", gap=g, xarg=a, yarg="none", rng=r)
              for x, y in shapes for g in (0, 1.0, "imaginary", "complex") for a in ("none", "number") for r in (0, 3, "generator")]
    cases += [dict(x=x, y=y, dtype=d, gap=g, xarg="none", yarg="none", rng=3)
              for x, y in shapes for g in (np.nan, np.inf) for d in ("float64", "complex128")]
    ctx.explore("all shapes, extra arguments and sources", cases, pairs)
    cases = [dict(seed=s, shape=sh) for s in range(ctx.pick(20, 200)) for sh in ((3,), (2, 3), (2, 1, 2))]
    ctx.explore("successive tests with one generator", cases, draws)
    cases = [dict(what=w, seed=s) for w in ("matrix", "convolution") for s in range(ctx.pick(20, 200))]
    ctx.explore("operators of ModOpt", cases, operators)
    ctx.explore("kinds of operators", [dict(op=o, adj=a) for o in CANDIDATES for a in CANDIDATES], kinds)
