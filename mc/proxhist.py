"""Histories of one proximity operator: calls, data and parameters in every order.

A word fixes what happens to one instance: proximal steps and costs on two
data arrays, data changed in place, parameters replaced or changed in place.
Every result must be the one of the parameters and data of that moment.
"""

import itertools

import numpy as np

from modopt.opt import linear, proximity

from .common import data
from .core import Pruned


class Case:
    """One kind of operator with its reference."""

    def __init__(self, build, attrs, op, cost, allowed=None, shape=(2, 3), tols=None, values=None):
        self.build, self.attrs, self.op, self.cost = build, attrs, op, cost
        self.allowed, self.shape = allowed, shape
        self.tols = tols or {"rtol": 1e-6, "atol": 1e-9}
        self.values = values


def _weights(shape, seed):
    return np.abs(data(shape, seed)) * 0.4 + 0.05


def _sorted(n, seed):
    return np.sort(_weights((n,), seed))[::-1].copy()


def kinds():
    from .props.c12 import oracle
    from .props.c13 import ksup, ksup_value, owl
    from .props.c14 import threshold
    from .props.c15 import penalty

    ident = linear.Identity()
    same = ident.op
    out = {}
    for name, kind in (("soft", "soft"), ("hard", "hard"), ("ridge", "ridge")):
        def build(p, kind=kind):
            if kind == "ridge":
                return proximity.Ridge(ident, p["weights"])
            return proximity.SparseThreshold(ident, p["weights"], thresh_type=kind)
        for flavour, shape in (("array", (2, 3)), ("scalar", ())):
            out[f"{name}-{flavour}"] = Case(
                build, {"weights": [_weights(shape, s) for s in (6, 7, 8)]},
                lambda x, p, f, kind=kind: oracle(kind, x, p["weights"], f),
                lambda x, p, kind=kind: penalty("ridge" if kind == "ridge" else "soft", x, p["weights"],
                                                None, same))
    out["elastic"] = Case(
        lambda p: proximity.ElasticNet(ident, p["alpha"], p["beta"]),
        {"alpha": [_weights((2, 3), s) for s in (6, 7, 8)],
         "beta": [_weights((2, 3), s) for s in (1, 2, 3)]},
        lambda x, p, f: oracle("elastic", x, p["alpha"], f, p["beta"]),
        lambda x, p: penalty("elastic", x, p["alpha"], p["beta"], same))
    out["group"] = Case(
        lambda p: proximity.GroupLASSO(p["weights"]), {"weights": [_weights((3,), s) for s in (6, 7, 8)]},
        lambda x, p, f: oracle("group", x, p["weights"], f),
        lambda x, p: penalty("group", x, p["weights"], None, same))
    out["owl"] = Case(
        lambda p: proximity.OrderedWeightedL1Norm(p["weights"]),
        {"weights": [_sorted(5, s) for s in (6, 7, 8)]},
        lambda x, p, f: owl(x, p["weights"] * f),
        lambda x, p: np.sum(p["weights"] * np.sort(np.abs(x))[::-1]),
        lambda x, p: [("owl-cost-order", np.sum(p["weights"] * np.sort(np.abs(x))))], shape=(5,))

    def halves(x, p):
        mag = np.sort(np.abs(x))[::-1]
        k, found = int(p["k_value"]), []
        for q in range(k):
            tail = mag[q:].sum() / (k - q)
            if tail >= mag[q] - 1e-12 and (q == 0 or mag[q - 1] >= tail - 1e-12):
                found.append(("ksupport-cost-half", p["beta"] * (
                    0.5 * np.sum(mag[:q] ** 2) + mag[q:].sum() ** 2 / (k - q))))
        return found

    out["ksup"] = Case(
        lambda p: proximity.KSupportNorm(p["beta"], p["k_value"]),
        {"beta": [0.5, 2.0, 1.0], "k_value": [2, 3, 1]},
        lambda x, p, f: ksup(x, p["beta"] * f, p["k_value"]),
        lambda x, p: 0.5 * p["beta"] * ksup_value(x, p["k_value"]), halves, shape=(5,),
        tols={"rtol": 1e-6, "atol": 1e-6})
    for kind in ("soft", "hard"):
        out[f"lowrank-{kind}"] = Case(
            lambda p, kind=kind: proximity.LowRankMatrix(p["thresh"], thresh_type=kind),
            {"thresh": [1.0, 0.25, 3.0]},
            lambda x, p, f, kind=kind: threshold(x, p["thresh"] * f, kind)[0],
            lambda x, p: penalty("nuclear", x, p["thresh"], None, same), shape=(4, 2, 3),
            tols={"rtol": 1e-5, "atol": 1e-6})
    return out


def history(case, obs):
    spec = kinds()[case["kind"]]
    dtype = np.dtype(case["dtype"])
    number = {name: 0 for name in spec.attrs}
    now = {name: np.array(v[0]) if np.ndim(v[0]) else
           (v[0] if not isinstance(v[0], np.ndarray) else float(v[0])) for name, v in spec.attrs.items()}
    xs = [data(spec.shape, 2, dtype), data(spec.shape, 3, dtype)]
    inst = spec.build({k: v.copy() if isinstance(v, np.ndarray) else v for k, v in now.items()})
    fresh, handed = 4, []
    for at, letter in enumerate(case["word"]):
        verb, arg = letter[0], letter[1:]
        if verb in "of":
            x = xs[int(arg)]
            keep = x.copy()
            f = 1.0 if verb == "o" else 0.5
            got = inst.op(x) if verb == "o" else inst.op(x, extra_factor=f)
            obs.exact(x, keep, "the argument was modified")
            want = spec.op(x, now, f)
            obs.close(got, want, f"step {at} of the history", **spec.tols)
            if isinstance(got, np.ndarray) and not np.shares_memory(got, x):
                handed.append((got, got.copy()))
            obs.state(case["kind"], at, letter, want)
        elif verb == "c":
            x = xs[int(arg)]
            got, want = inst.cost(x), spec.cost(x, now)
            if abs(got - want) > 1e-6 * (1 + abs(want)):
                near = [k for k, v in (spec.allowed(x, now) if spec.allowed else [])
                        if abs(got - v) <= 1e-6 * (1 + abs(v))]
                obs.check(bool(near), "cost {} instead of {} at step {} of the history", got, want, at)
                obs.known.add(near[0])
            obs.step()
            obs.state(case["kind"], at, letter, want)
        elif verb == "x":
            xs[int(arg)][...] = data(spec.shape, fresh, dtype)
            fresh += 1
        else:
            number[arg] += 1
            value = spec.attrs[arg][number[arg] % 3]
            if verb == "i":
                kept = getattr(inst, arg)
                if not isinstance(kept, np.ndarray) or kept.ndim == 0:
                    raise Pruned("not an array")
                kept[...] = value
            else:
                setattr(inst, arg, np.array(value) if np.ndim(value) else type(now[arg])(value))
            now[arg] = np.array(value) if np.ndim(value) else type(now[arg])(value)
    for got, keep in handed:
        obs.exact(got, keep, "a result handed out earlier changed")
    obs.outcome(case["kind"], case["word"])


def cases(names, verbs, depth, dtypes=("float64",)):
    """All words ending in an observation; ``verbs`` is a subset of o, f, c."""
    out = []
    table = kinds()
    for name in names:
        letters = [v + x for v in verbs for x in "01"] + ["x0"]
        looks = [w for w in letters if w[0] in verbs]
        for attr, values in table[name].attrs.items():
            letters.append("s" + attr)
            if np.ndim(values[0]):
                letters.append("i" + attr)
        for dtype in dtypes:
            for word in itertools.product(letters, repeat=depth - 1):
                if word[-1][0] == "x" and word[0] == "x0":
                    continue
                for last in looks:
                    out.append(dict(kind=name, word=list(word) + [last], dtype=dtype))
    return out
