"""C24: invalid arguments are refused, valid ones accepted and converted."""

import itertools

import numpy as np

from modopt.base import types
from modopt.opt import algorithms as alg
from modopt.opt import cost as cost_mod
from modopt.opt import linear, proximity, reweight
from modopt.signal.noise import thresh
from modopt.signal.positivity import positive
from modopt.signal.validation import transpose_test
from modopt.math import matrix as mat
from modopt.opt.linear.wavelet import CPUWaveletTransform

from ..common import data
from ..solvers import DESCENT, World, make

BAD_ARRAY = {"list": [1.0, 2.0, 3.0], "tuple": (1.0,), "number": 1.0, "none": None, "string": "abc",
             "dict": {}}
BAD_FLOAT = {"int": 1, "zero": 0, "string": "0.5", "none": None, "list": [0.5], "array": np.array([0.5]),
             "bool": True, "complex": 1j, "np.int": np.int64(1)}
BAD_CALL = {"int": 1, "string": "abc", "list": [1], "float": 0.5, "dict": {}}
BAD_METRICS = {"list": [1], "string": "abc", "int": 3, "tuple": (1, 2)}

ARRAYS = {"fb": ["x"], "genfb": ["x"], "pogm": ["u", "x", "y", "z"], "condat": ["x", "y"],
          **{k: ["x"] for k in DESCENT}}
FLOATS = {"fb": ["beta_param", "lambda_param"], "genfb": ["gamma_param", "lambda_param"],
          "pogm": ["beta_param", "sigma_bar"], "condat": ["rho", "sigma", "tau"],
          "vanilla": ["eta", "epsilon"], "ada": ["eta", "epsilon"], "saga": ["eta", "epsilon"],
          "momentum": ["eta", "epsilon", "beta"], "rmsprop": ["eta", "epsilon", "gamma"],
          "adam": ["eta", "epsilon", "gamma", "beta"]}
CALLS = {"fb": ["beta_update", "lambda_update"], "genfb": ["gamma_update", "lambda_update"],
         "condat": ["rho_update", "sigma_update", "tau_update"],
         **{k: ["eta_update"] for k in DESCENT}}
KINDS = list(ARRAYS)


def build(kind, **over):
    """A solver, every argument valid except those overridden."""
    w = World()
    x0 = w.x0
    args = {k: x0 for k in ARRAYS[kind]}
    kw = {"grad": w.grad(), "progress": False, "cost": None}
    if kind == "genfb":
        kw["prox_list"] = [w.prox(), w.prox(0.3)]
    else:
        kw["prox"] = w.prox()
    if kind == "condat":
        kw["prox_dual"] = w.prox(0.2)
    if kind not in DESCENT:
        kw["auto_iterate"] = False
        kw["linear"] = w.linear()
    kw.update(args)
    kw.update(over)
    cls = {"fb": alg.ForwardBackward, "genfb": alg.GenForwardBackward, "pogm": alg.POGM,
           "condat": alg.Condat, **DESCENT}[kind]
    return cls(**kw)


def lookup(spec):
    table, name = spec
    return {"array": BAD_ARRAY, "float": BAD_FLOAT, "call": BAD_CALL, "metrics": BAD_METRICS}[table][name]


def refused(case, obs):
    over = {arg: lookup(spec) for arg, spec in case["bad"].items()}
    obs.raises((TypeError, ValueError), lambda: build(case["kind"], **over),
               f"{case['kind']} with {case['bad']}")
    obs.state(case["kind"], case["bad"])
    obs.outcome(case["kind"], sorted(case["bad"]))


def accepted(case, obs):
    kind = case["kind"]
    over = {}
    for arg, val in case["good"].items():
        over[arg] = (lambda v, *a: v) if val == "call" else np.float64(val[1]) if isinstance(val, list) else val
    inst = build(kind, **over)
    inst.iterate(max_iter=2)
    obs.check(np.asarray(inst.x_final).shape == (3,), "no result")
    obs.state(kind, case["good"])
    obs.outcome(kind, sorted(case["good"]))


def ranges(case, obs):
    """Parameters with a documented range."""
    kind, arg, val = case["kind"], case["arg"], case["val"]
    make_it = lambda: build(kind, **{arg: val})
    if case["ok"]:
        inst = make_it()
        inst.iterate(max_iter=2)
        obs.check(np.asarray(inst.x_final).shape == (3,), "no result")
    else:
        obs.raises(ValueError, make_it, f"{kind} with {arg}={val}")
    obs.state(kind, arg, val)
    obs.outcome(kind, arg, case["ok"])


def fista(case, obs):
    """All combinations of FISTA options: refused exactly when not consistent."""
    kw = {k: v for k, v in case.items() if v is not None}
    a_cd, strat = case["a_cd"], case["restart_strategy"]
    names = ("adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy")
    ok = a_cd is None or a_cd > 2
    if strat is not None:
        ok = ok and strat in names and a_cd is None
        ok = ok and case["xi_restart"] is not None and case["xi_restart"] < 1
        if strat == "greedy":
            ok = ok and case["min_beta"] is not None and case["s_greedy"] is not None \
                and case["s_greedy"] > 1
    if ok:
        inst = build("fb", **kw)
        inst.iterate(max_iter=2)
        obs.check(np.all(np.isfinite(inst.x_final)), "no result")
    else:
        obs.raises(ValueError, lambda: build("fb", **kw), f"FISTA with {kw}")
    obs.state(kw)
    obs.outcome(ok, strat)


def weights(case, obs):
    w = case["w"]
    num = case["num"]
    world = World()
    prox_list = [world.prox(0.1 * (k + 1)) for k in range(num)]
    if case["wrap"] == "array":
        w = np.array(w)
    elif case["wrap"] == "tuple":
        w = tuple(w)
    vals = case["w"]
    ok = len(vals) == num and all(isinstance(v, float) for v in vals) and abs(sum(vals) - 1) < 1e-9
    made = lambda: build("genfb", prox_list=prox_list, weights=w)
    if ok:
        made().iterate(max_iter=2)
    else:
        obs.raises((ValueError, TypeError), made, f"weights {w} for {num} operators")
    obs.state(vals, num)
    obs.outcome(ok, num)


class NoOp:
    cost = staticmethod(lambda *a, **k: 0)


class NoCost:
    op = staticmethod(lambda *a, **k: 0)


class NoAdj:
    op = staticmethod(lambda *a, **k: 0)


class BadOp:
    op = 3
    adj_op = 4
    cost = 5


OTHERS = {
    "genfb weights string": (TypeError, lambda: build("genfb", weights="ab")),
    "genfb weights number": (TypeError, lambda: build("genfb", weights=1.0)),
    "fb metrics without linear": (ValueError, lambda: build("fb", linear=None, metrics=METRICS)),
    "genfb metrics without linear": (ValueError, lambda: build("genfb", linear=None, metrics=METRICS)),
    "cost operators number": (TypeError, lambda: cost_mod.costObj(3)),
    "cost operators dict": (TypeError, lambda: cost_mod.costObj({"a": 1})),
    "cost operators without cost": (ValueError, lambda: cost_mod.costObj([NoCost()])),
    "cost operators second without cost": (ValueError, lambda: cost_mod.costObj([NoOp(), NoCost()])),
    "cost operators with bad cost": (TypeError, lambda: cost_mod.costObj([NoOp(), BadOp()])),
    "linear op": (TypeError, lambda: linear.LinearParent(3, abs)),
    "linear adj_op": (TypeError, lambda: linear.LinearParent(abs, "x")),
    "linear combo number": (TypeError, lambda: linear.LinearCombo(3)),
    "linear combo dict": (TypeError, lambda: linear.LinearCombo({"a": 1})),
    "linear combo empty": (ValueError, lambda: linear.LinearCombo([])),
    "linear combo empty tuple": (ValueError, lambda: linear.LinearCombo(())),
    "linear combo no op": (ValueError, lambda: linear.LinearCombo([NoOp()])),
    "linear combo no adj": (ValueError, lambda: linear.LinearCombo([linear.Identity(), NoAdj()])),
    "linear combo bad op": (TypeError, lambda: linear.LinearCombo([linear.Identity(), BadOp()])),
    "linear combo weights number": (ValueError, lambda: linear.LinearCombo([linear.Identity()], [1.0, 2.0])),
    "linear combo fewer weights": (ValueError, lambda: linear.LinearCombo([linear.Identity()] * 3, [1.0, 2.0])),
    "linear combo weights ints": (TypeError, lambda: linear.LinearCombo([linear.Identity()], [1])),
    "linear combo weights type": (TypeError, lambda: linear.LinearCombo([linear.Identity()], 1.0)),
    "linear combo weights empty": (ValueError, lambda: linear.LinearCombo([linear.Identity()], [])),
    "prox op": (TypeError, lambda: proximity.ProximityParent(3, abs)),
    "prox cost": (TypeError, lambda: proximity.ProximityParent(abs, 3)),
    "prox combo number": (TypeError, lambda: proximity.ProximityCombo(3)),
    "prox combo empty": (ValueError, lambda: proximity.ProximityCombo([])),
    "prox combo no op": (ValueError, lambda: proximity.ProximityCombo([NoOp()])),
    "prox combo no cost": (ValueError, lambda: proximity.ProximityCombo([proximity.IdentityProx(), NoCost()])),
    "prox combo bad": (TypeError, lambda: proximity.ProximityCombo([BadOp()])),
    "owl increasing": (ValueError, lambda: proximity.OrderedWeightedL1Norm(np.array([1.0, 2.0]))),
    "owl one increase": (ValueError, lambda: proximity.OrderedWeightedL1Norm(np.array([3.0, 1.0, 2.0]))),
    "owl increase between rows": (ValueError, lambda: proximity.OrderedWeightedL1Norm(np.array([[3.0, 1.0], [2.0, 0.5]]))),
    "owl negative, one": (ValueError, lambda: proximity.OrderedWeightedL1Norm(np.array([-1.0]))),
    "owl negative": (ValueError, lambda: proximity.OrderedWeightedL1Norm(np.array([2.0, -1.0]))),
    "k-support zero": (ValueError, lambda: proximity.KSupportNorm(1.0, 0)),
    "k-support negative": (ValueError, lambda: proximity.KSupportNorm(1.0, -3)),
    "low rank type": (ValueError, lambda: proximity.LowRankMatrix(
        1.0, lowr_type="x").op(data((2, 3, 3), 2))),
    "reweight shape": (ValueError, lambda: reweight.cwbReweight(np.ones((3, 3))).reweight(np.ones((2, 3)))),
    "reweight shape 1-D": (ValueError, lambda: reweight.cwbReweight(np.ones(9)).reweight(np.ones((3, 3)))),
    "gram-schmidt option": (ValueError, lambda: mat.gram_schmidt(np.eye(2), return_opt="x")),
    "rotate shape": (ValueError, lambda: mat.rotate(np.zeros((2, 3)), 0.0)),
    "rotate shape 2": (ValueError, lambda: mat.rotate(np.zeros((3, 2)), np.pi)),
    "transpose test op": (TypeError, lambda: transpose_test(3, abs, (2, 2))),
    "transpose test adjoint": (TypeError, lambda: transpose_test(abs, 3, (2, 2))),
    "thresh type": (ValueError, lambda: thresh(np.ones(3), 1.0, "x")),
    "thresh type case": (ValueError, lambda: thresh(np.ones(3), 1.0, "Soft")),
    "positive string": (TypeError, lambda: positive("-1")),
    "positive dict": (TypeError, lambda: positive({})),
    "positive none": (TypeError, lambda: positive(None)),
    "positive complex": (TypeError, lambda: positive(1 - 2j)),
    "positive set": (TypeError, lambda: positive({1.0})),
    "positive bytes": (TypeError, lambda: positive(b"1")),
    "positive range": (TypeError, lambda: positive(range(-2, 2))),
    "positive range, ragged": (TypeError, lambda: positive(range(-2, 2), ragged=True)),
    "positive generator": (TypeError, lambda: positive(x for x in (1.0, -1.0))),
    "wavelet name": (ValueError, lambda: CPUWaveletTransform("nope", (4, 4))),
    "wavelet undecimated": (NotImplementedError, lambda: CPUWaveletTransform("haar", (4, 4), decimated=False)),
    "wavelet backend": (ValueError, lambda: linear.WaveletTransform("haar", (4, 4), compute_backend="x")),
    "wavelet gpu absent": (ValueError, lambda: linear.WaveletTransform("haar", (4, 4), compute_backend="cupy")),
}

METRICS = {"m": {"metric": lambda **k: 1.0, "mapping": {}, "cst_kwargs": {}, "early_stopping": False}}


def others(case, obs):
    kinds, fn = OTHERS[case["name"]]
    obs.raises(kinds, fn, case["name"])
    # and again: nothing was left behind that would let it pass
    obs.raises(kinds, fn, case["name"] + ", second time")
    obs.state(case["name"])
    obs.outcome(case["name"])


VALUES = {
    "int": 3, "negative": -2, "float": 2.75, "negative float": -2.75, "bool": True, "list": [1, 2],
    "float list": [1.5, -2.5], "nested": [[1, 2], [3, 4]], "tuple": (1, 2.5), "ints": np.arange(4),
    "floats": np.array([0.5, -1.5, 2.0]), "float32": np.array([0.5, 2], dtype="float32"),
    "int32": np.array([1, 2], dtype="int32"), "bools": np.array([True, False]), "matrix": np.eye(2),
    "np.float64": np.float64(2.5), "uint8": np.array([200, 3], dtype="uint8"), "empty": np.array([]),
    "none": None, "string": "1.5", "dict": {}, "complex": 1j, "np.float32": np.float32(1.5),
    "np.int64": np.int64(4), "float16": np.array([0.5, -2], dtype="float16"), "np.float16": np.float16(1.5),
    "longdouble": np.array([0.5, -2, 3], dtype="longdouble"), "uint64": np.array([2**40, 3], dtype="uint64"),
    "int8": np.array([-100, 3], dtype="int8"), "uint16": np.array([[60000], [1]], dtype="uint16"),
    "float matrix": -1.5 * np.eye(3), "number": np.array(2.5), "whole": np.array(3), "empty list": [], "empty ints": np.array([], int),
    "long": 2**40, "object list": [True, 2.5], "float32 3-D": np.full((1, 2, 2), 0.5, "float32"), "set": {1, 2}, "bytes": b"1", "function": abs,
}


def convert(case, obs):
    val = VALUES[case["name"]]
    good = isinstance(val, (int, float, list, tuple, np.ndarray))
    for fn, kind, wide in ((types.check_float, "f", float), (types.check_int, "i", int)):
        if not good:
            obs.raises(TypeError, lambda: fn(val), f"{fn.__name__} of {val!r}")
            continue
        before = val.copy() if isinstance(val, np.ndarray) else val
        got = fn(val)
        if isinstance(val, (int, float)):
            obs.check(isinstance(got, wide), "{} of {} is {}", fn.__name__, val, type(got))
            obs.check(got == wide(val), "{} of {} is {}", fn.__name__, val, got)
        else:
            obs.check(isinstance(got, np.ndarray), "{} gives {}", fn.__name__, type(got))
            kinds = kind if kind == "f" else "iu"
            obs.check(got.dtype.kind in kinds, "{} gives type {}", fn.__name__, got.dtype)
            obs.exact(got, np.array(before).astype(wide), f"{fn.__name__} values")
            if isinstance(val, np.ndarray):
                obs.exact(val, before, "argument modified")
                if val.dtype.kind in kinds:
                    obs.check(got.dtype == val.dtype, "precision changed to {}", got.dtype)
    obs.state(case["name"])
    obs.outcome(good)


def callables(case, obs):
    for good in (abs, len, lambda: 1, callables, int, NoOp, np.sin):
        obs.check(types.check_callable(good) is good, "a callable was not returned as it is")
    for bad in VALUES.values():
        if not callable(bad):
            obs.raises(TypeError, lambda: types.check_callable(bad), f"check_callable of {bad!r}")
    obs.state("callable")
    obs.outcome("callable")


def arrays(case, obs):
    src = np.ones((2, 2), dtype=case["dtype"])
    if case["frozen"]:
        src.flags.writeable = False
    kw = {"writeable": case["writeable"]} if case["writeable"] is not None else {}
    if case["want"] is not None:
        kw["dtype"] = {"integer": np.integer, "floating": np.floating, "complex": np.complexfloating,
                       "float32": np.float32}[case["want"]]
    fits = case["want"] is None or np.issubdtype(src.dtype, kw["dtype"])
    call = lambda: types.check_npndarray(src, verbose=case["verbose"], **kw)
    if not fits:
        obs.raises(TypeError, call, f"{case['dtype']} for {case['want']}")
        obs.check(src.flags.writeable == (not case["frozen"]), "a refused array was modified")
    else:
        call()
        obs.check(src.flags.writeable == (case["writeable"] is not False), "writeable is {}",
                  src.flags.writeable)
    obs.exact(src, np.ones((2, 2)), "values modified")
    for bad in (1.0, [1.0], None, "x", (1,)):
        obs.raises(TypeError, lambda: types.check_npndarray(bad), f"check_npndarray of {bad!r}")
    obs.state(case["dtype"], case["want"], case["writeable"])
    obs.outcome(fits, case["writeable"])


def run(ctx):
    single = []
    for kind in KINDS:
        for arg in ARRAYS[kind]:
            single += [(kind, arg, ["array", n]) for n in BAD_ARRAY]
        for arg in FLOATS[kind]:
            single += [(kind, arg, ["float", n]) for n in BAD_FLOAT]
        for arg in CALLS.get(kind, []):
            single += [(kind, arg, ["call", n]) for n in BAD_CALL]
        single += [(kind, "metrics", ["metrics", n]) for n in BAD_METRICS]
    # lambda_update="fista" is the only legal string
    cases = [dict(kind=k, bad={a: s}) for k, a, s in single]
    for kind in KINDS:
        mine = [(a, s) for k, a, s in single if k == kind]
        for (a, s), (b, t) in itertools.combinations(mine, 2):
            if a != b:
                cases.append(dict(kind=kind, bad={a: s, b: t}))
    ctx.explore("every invalid argument and pair", cases, refused)
    cases = []
    for kind in KINDS:
        for arg in FLOATS[kind]:
            for val in (0.25, ["np", 0.5], 0.9):
                cases.append(dict(kind=kind, good={arg: val}))
        for n in range(len(CALLS.get(kind, [])) + 1):
            for args in itertools.combinations(CALLS.get(kind, []), n):
                cases.append(dict(kind=kind, good={a: "call" for a in args}))
                cases.append(dict(kind=kind, good={a: None for a in args}))
    ctx.explore("valid arguments", cases, accepted)
    cases = [dict(kind="pogm", arg="sigma_bar", val=v, ok=0 <= v <= 1)
             for v in (-1.0, -1e-9, 0.0, 0.3, 1.0, 1.0 + 1e-9, 2.0)]
    cases += [dict(kind="rmsprop", arg="gamma", val=v, ok=0 <= v <= 1)
              for v in (-1.0, -1e-9, 0.0, 0.3, 1.0, 1.0 + 1e-9, 2.0)]
    cases += [dict(kind="adam", arg=a, val=v, ok=0 <= v < 1) for a in ("gamma", "beta")
              for v in (-1.0, -1e-9, 0.0, 0.3, 1.0 - 1e-9, 1.0, 2.0)]
    ctx.explore("ranges", cases, ranges)
    cases = [dict(a_cd=a, restart_strategy=s, xi_restart=x, s_greedy=g, min_beta=m)
             for a in (None, -1, 0, 2, 2.0, 2.001, 3, 50.0)
             for s in (None, "adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy",
                       "Adaptive", "none", "adaptive-3", "")
             for x in (None, 0.5, 0.999, 1.0, 1.5) for g in (None, 0.5, 1.0, 1.001, 2.0) for m in (None, 0.1)]
    ctx.explore("all FISTA options", cases, fista)
    vals = [0.0, 0.2, 0.5, 0.8, 1.0, 1, 0]
    cases = [dict(w=list(w), num=n, wrap=wr) for n in (1, 2, 3) for k in (1, 2, 3)
             for w in itertools.product(vals if k < 3 else vals[:5], repeat=k)
             for wr in ("list", "tuple", "array")
             if not (any(isinstance(v, int) for v in w) and any(isinstance(v, float) for v in w))]
    cases += [dict(w=[1.0 / n] * n, num=n, wrap="list") for n in range(1, 12)]
    cases += [dict(w=[0.1] * 10, num=10, wrap="list"), dict(w=[0.7, 0.2, 0.1], num=3, wrap="list")]
    ctx.explore("proximity weights", cases, weights)
    ctx.explore("other entry points", [dict(name=n) for n in OTHERS], others)
    ctx.explore("conversions", [dict(name=n) for n in VALUES], convert)
    ctx.explore("callables", [dict()], callables)
    cases = [dict(dtype=d, want=w, writeable=wr, frozen=f, verbose=v)
             for d in ("float64", "float32", "int64", "complex128") for w in (None, "integer", "floating", "complex", "float32")
             for wr in (None, True, False) for f in (False, True) for v in (True, False)
             if not (f and wr is not False)]
    ctx.explore("array checks", cases, arrays)
