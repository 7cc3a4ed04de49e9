"""C36: invalid arguments are refused as documented, valid ones are accepted, and a refusal changes nothing."""

import itertools

import numpy as np

import modopt.opt.algorithms as alg
from modopt.base.observable import Observable
from modopt.base.types import check_callable, check_float, check_int, check_npndarray
from modopt.math.convolve import convolve, convolve_stack
from modopt.math.matrix import gram_schmidt, rotate
from modopt.math.stats import gaussian_kernel, psnr, psnr_stack
from modopt.opt.algorithms.forward_backward import FISTA
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic, GradParent
from modopt.opt.linear import LinearCombo, LinearParent, WaveletTransform
from modopt.opt.proximity import (KSupportNorm, LowRankMatrix, OrderedWeightedL1Norm, ProximityCombo, ProximityParent,
                                  SparseThreshold)
from modopt.opt.reweight import cwbReweight
from modopt.signal.noise import add_noise, thresh
from modopt.signal.positivity import positive
from modopt.signal.svd import calculate_svd, find_n_pc, svd_thresh, svd_thresh_coef
from modopt.signal.validation import transpose_test

from ..common import Grad, Linear, Prox, data, matrix

T, V = TypeError, ValueError
LEFT_OUT = object()


class Door:
    """A callable, per argument the values (label, maker, refusals), the first is the ordinary one.

    ``together`` maps the labels chosen to further refusals; ``use`` shows what an accepted call does.
    """

    def __init__(self, fn, args, together=None, use=None, free=()):
        self.fn, self.args, self.together, self.use, self.free = fn, args, together, use, free

    def values(self, labels):
        made, refusals = {}, []
        for name, label in labels.items():
            maker, verdict = next((m, v) for tag, m, v in self.args[name] if tag == label)
            value = maker()
            if value is not LEFT_OUT:
                made[name] = value
            if verdict:
                refusals.append(verdict)
        if self.together:
            refusals += self.together(labels)
        return made, tuple(refusals)


def good(label, maker):
    return label, maker, None


def bad(kind, label, maker):
    return label, maker, kind


def left_out():
    return good("left out", lambda: LEFT_OUT)


X0 = np.array([1.0, -2.0, 0.5])


def fixed():
    res = X0.copy()
    res.flags.writeable = False
    return res


def array():
    return [good("array", lambda: X0.copy()), good("read-only", fixed), bad(T, "list", lambda: [1.0, 2.0, 3.0]), bad(T, "number", lambda: 2.0), bad(T, "none", lambda: None),
            bad(T, "text", lambda: "abc")]


def number(value, *more, none=False):
    return [good("ordinary", lambda: value), good("numpy", lambda: np.float64(value)), left_out(),
            bad(T, "integer", lambda: 1), bad(T, "text", lambda: "1.0"), bad(T, "list", lambda: [0.5]), bad(T, "none", lambda: None),
            bad(T, "array", lambda: np.array([0.5])), *more]


def update(fn):
    return [left_out(), good("none", lambda: None), good("function", lambda: fn),
            bad(T, "number", lambda: 0.5), bad(T, "zero", lambda: 0), bad(T, "text", lambda: "faster"), bad(T, "list", lambda: [fn]),
            bad(T, "empty list", list), bad(T, "empty text", str), bad(T, "no", lambda: False)]


def metrics_arg(needs_linear=False):
    one = {"m": {"metric": lambda v: float(np.sum(np.abs(v))), "mapping": {"x_new": "v"}, "cst_kwargs": {}, "early_stopping": False}}
    return [left_out(), good("none", lambda: None), good("empty", dict), good("one", lambda: dict(one)),
            bad(T, "list", lambda: [one]), bad(T, "text", lambda: "m"), bad(T, "number", lambda: 3), bad(T, "function", lambda: len),
            bad(T, "empty list", list), bad(T, "empty text", str), bad(T, "zero", lambda: 0), bad(T, "no", lambda: False), bad(T, "tuple", tuple)]


def grad():
    return Grad(lambda x: 0.1 * x)


def prox():
    return Prox(lambda x, f: 0.9 * x)


def lin():
    return Linear(matrix(3, 3))


SINGLE = {"progress": False, "auto_iterate": False}


def fista_args():
    return {
        "restart_strategy": [left_out(), good("none", lambda: None), good("greedy", lambda: "greedy"), good("adaptive", lambda: "adaptive"),
                             good("adaptive-1", lambda: "adaptive-1"), good("adaptive-i", lambda: "adaptive-i"),
                             good("adaptive-2", lambda: "adaptive-2"), good("adaptive-ii", lambda: "adaptive-ii"),
                             bad(V, "unknown", lambda: "eager"), bad(V, "capital", lambda: "Greedy"), bad(V, "number", lambda: 1),
                             bad(V, "empty", lambda: "")],
        "min_beta": [good("set", lambda: 0.4), left_out(), good("none", lambda: None), good("large", lambda: 7.0)],
        "s_greedy": [good("set", lambda: 1.1), left_out(), good("none", lambda: None), good("one", lambda: 1), good("below", lambda: 0.5),
                     good("two", lambda: 2), good("hardly above", lambda: 1 + 1e-9)],
        "xi_restart": [good("set", lambda: 0.96), left_out(), good("none", lambda: None), good("one", lambda: 1), good("above", lambda: 1.5),
                       good("small", lambda: 0.01), good("hardly above", lambda: 1 + 1e-9), good("hardly below", lambda: 1 - 1e-9)],
        "a_cd": [left_out(), good("none", lambda: None), good("three", lambda: 3), good("just", lambda: 2.001), bad(V, "two", lambda: 2), bad(V, "hardly below", lambda: 2 - 1e-9),
                 bad(V, "zero", lambda: 0), bad(V, "negative", lambda: -3.0)],
    }


def restarts(labels):
    """What the restart settings need."""
    strategy = labels["restart_strategy"]
    if strategy in ("left out", "none", "unknown", "capital", "number", "empty"):
        return []
    res = []
    if labels["a_cd"] in ("three", "just"):
        res.append(V)
    if strategy == "greedy" and (labels["min_beta"] in ("left out", "none") or labels["s_greedy"] in ("left out", "none", "one", "below")):
        res.append(V)
    if labels["xi_restart"] in ("left out", "none", "one", "above", "hardly above"):
        res.append(V)
    return res


def fb_together(labels):
    res = []
    if labels["metrics"] == "one" and labels["linear"] != "given":
        res.append(V)
    if labels.get("lambda_update", "left out") in ("left out", "fista"):
        res += restarts(labels)
        if labels["a_cd"] in ("two", "zero", "negative", "hardly below"):
            res.append(V)
        if labels["restart_strategy"] in ("unknown", "capital", "number", "empty"):
            res.append(V)
    return res


def neutral(args):
    """The same values, of which none is refused on its own."""
    return {name: [(tag, maker, None) for tag, maker, _ in values] for name, values in args.items()}


def run_it(inst):
    inst.iterate(max_iter=2)
    return [np.array(getattr(inst, name)) for name in ("x_final", "y_final", "u_final", "v_final") if hasattr(inst, name)]


def linear_arg():
    return [good("given", lin), left_out(), good("none", lambda: None)]


WEIGHTS = [left_out(), good("none", lambda: None), good("list", lambda: [0.25, 0.75]), good("tuple", lambda: (0.5, 0.5)),
           good("array", lambda: np.array([0.1, 0.9])), good("rounded", lambda: [0.1 + 0.2, 0.7]),
           bad(T, "number", lambda: 0.5), bad(T, "text", lambda: "ab"), bad(T, "dictionary", lambda: {0: 0.5, 1: 0.5}),
           bad(V, "integers", lambda: [0, 1]), bad(V, "too many", lambda: [0.25, 0.25, 0.5]), bad(V, "too few", lambda: [1.0]),
           bad(V, "small sum", lambda: [0.25, 0.25]), bad(V, "large sum", lambda: [0.75, 0.75]), bad(V, "nan", lambda: [np.nan, 0.5]),
           bad(V, "slightly off", lambda: [0.5, 0.501]), bad(V, "hardly off", lambda: [0.5, 0.50005]),
           bad(V, "empty", list), good("hardly rounded", lambda: [0.5, 0.5 + 1e-9])]


def unit(extra):
    """A parameter in the unit interval."""
    return number(0.5, bad(V, "above", lambda: 1.5), bad(V, "negative", lambda: -0.1), good("small", lambda: 0.01),
                  bad(V, "hardly above", lambda: 1.0 + 1e-9), bad(V, "hardly negative", lambda: -1e-9), good("hardly below", lambda: 1.0 - 1e-9),
                  *extra)


def descent(cls, **more):
    return Door(lambda x, **kw: cls(x, grad(), prox(), None, progress=False, **kw), {
        "x": array(), "eta": number(0.3), "epsilon": number(1.0), "eta_update": update(lambda eta, i: 0.9 * eta),
        "metrics": metrics_arg(), **more}, use=run_it)


def combination(cls, adjoint):
    class Member:
        pass

    def member(*names):
        inst = Member()
        for name in names:
            setattr(inst, name, lambda x, *a, **k: 2.0 * np.asarray(x))
        return inst

    def broken(name):
        inst = member("op", adjoint)
        setattr(inst, name, "no function")
        return inst

    return [good("two", lambda: [member("op", adjoint), member("op", adjoint)]), good("tuple", lambda: (member("op", adjoint),)),
            good("array", lambda: np.array([member("op", adjoint)] * 2)),
            bad(T, "single", lambda: member("op", adjoint)), bad(T, "dictionary", lambda: {"a": member("op", adjoint)}),
            bad(T, "none", lambda: None), bad(V, "empty", list), bad(V, "no op", lambda: [member("op", adjoint), member(adjoint)]),
            bad(V, "no other", lambda: [member("op", adjoint), member("op")]),
            *[bad(V, f"{lack or 'nothing'} in place {k}", lambda k=k, has=has: [member(*(has if i == k else ("op", adjoint))) for i in range(3)])
              for k in range(3) for lack, has in (("no op", (adjoint,)), ("no other", ("op",)), ("", ()))],
            *[bad(T, f"{name} is no function in place {k}",
                  lambda k=k, name=name: [broken(name) if i == k else member("op", adjoint) for i in range(3)])
              for k in range(3) for name in ("op", adjoint)],
            bad(T, "text", lambda: "ab"), bad(V, "empty tuple", tuple), bad(V, "empty array", lambda: np.array([])),
            bad(T, "op is no function", lambda: [member("op", adjoint), broken("op")]),
            bad(T, "other is no function", lambda: [broken(adjoint), member("op", adjoint)])]


def combo_weights(labels):
    sizes = {"two": 2, "tuple": 1, "array": 2}
    given = {"pair": 2, "one": 1, "three": 3}.get(labels["weights"])
    if given and labels["operators"] in sizes and given != sizes[labels["operators"]]:
        return [V]
    return []


def function():
    return [good("function", lambda: lambda x, *a, **k: 2.0 * x), bad(T, "number", lambda: 3), bad(T, "none", lambda: None),
            bad(T, "text", lambda: "x"), bad(T, "array", lambda: X0.copy())]


def optional():
    return [left_out(), good("none", lambda: None), *function()[:2], *function()[3:]]


CUBE = data((3, 4, 4), 5)
MAT = data((9, 4), 6)


def shapes(labels):
    return [V] if labels["input_data"] != labels["kernel"] and "text" not in labels.values() else []


DOORS = {
    "ForwardBackward": Door(
        lambda x, **kw: alg.ForwardBackward(x, grad(), prox(), cost=None, **SINGLE, **kw),
        {"x": array(), "beta_param": number(0.5), "lambda_param": number(0.9), "beta_update": update(lambda b: 0.9 * b),
         "lambda_update": [left_out(), good("fista", lambda: "fista"), *update(lambda v: v)[1:]], "metrics": metrics_arg(),
         "linear": linear_arg(), **neutral(fista_args())}, fb_together, run_it),
    "FISTA": Door(lambda **kw: FISTA(**kw), fista_args(), restarts),
    "GenForwardBackward": Door(
        lambda x, **kw: alg.GenForwardBackward(x, grad(), [prox(), prox()], cost=None, **SINGLE, **kw),
        {"x": array(), "gamma_param": number(0.5), "lambda_param": number(0.9), "gamma_update": update(lambda b: 0.9 * b),
         "lambda_update": update(lambda v: v), "weights": WEIGHTS, "metrics": metrics_arg(), "linear": linear_arg()},
        lambda labels: [V] if labels["metrics"] == "one" and labels["linear"] != "given" else [], run_it),
    "POGM": Door(
        lambda u, x, y, z, **kw: alg.POGM(u, x, y, z, grad(), prox(), cost=None, **SINGLE, **kw),
        {**{n: array() for n in "uxyz"}, "beta_param": number(0.5), "metrics": metrics_arg(),
         "sigma_bar": unit([good("one", lambda: 1.0), good("zero", lambda: 0.0)])},
        use=run_it),
    "Condat": Door(
        lambda x, y, **kw: alg.Condat(x, y, grad(), prox(), prox(), cost=None, **SINGLE, **kw),
        {"x": array(), "y": array(), "rho": number(0.5), "sigma": number(0.5), "tau": number(0.5),
         **{f"{n}_update": update(lambda v: 0.9 * v) for n in ("rho", "sigma", "tau")}, "metrics": metrics_arg(), "linear": linear_arg()},
        use=run_it),
    "Vanilla": descent(alg.VanillaGenericGradOpt),
    "AdaGrad": descent(alg.AdaGenericGradOpt),
    "RMSprop": descent(alg.RMSpropGradOpt, gamma=unit([])),
    "Momentum": descent(alg.MomentumGradOpt, beta=number(0.9)),
    "ADAM": descent(alg.ADAMGradOpt, gamma=unit([bad(V, "one", lambda: 1.0)]), beta=unit([bad(V, "one", lambda: 1.0)])),
    "SAGA": descent(alg.SAGAOptGradOpt),
    "ADMM": Door(
        lambda **kw: alg.ADMM(X0, X0, 0 * X0, lin(), lin(), X0, (lambda init, obs: 0.5 * init, lambda init, obs: 0.4 * init),
                              progress=False, **kw), {"metrics": metrics_arg()}, use=run_it),
    "costObj": Door(
        lambda operators: costObj(operators, verbose=False),
        {"operators": [t for t in combination(None, "cost") if not t[0].startswith(("empty", "no", "op"))]
         + [bad(V, "no cost", lambda: [object()])]
         + [bad(V, f"no cost in place {k}", lambda k=k: [object() if i == k else prox() for i in range(3)]) for k in range(3)]}),
    "ProximityCombo": Door(ProximityCombo, {"operators": combination(None, "cost")}, use=lambda i: [np.shape(i.op(np.array([X0, X0])))]),
    "LinearCombo": Door(
        LinearCombo, {"operators": combination(None, "adj_op"),
                      "weights": [left_out(), good("none", lambda: None), good("pair", lambda: [0.5, 1.5]), good("one", lambda: (2.0,)),
                                  good("three", lambda: np.array([1.0, 2.0, 3.0])), bad(T, "number", lambda: 0.5),
                                  bad((T, V), "integers", lambda: [1, 2]), bad(T, "dictionary", lambda: {0: 1.0}), bad(V, "empty", list)]},
        lambda labels: combo_weights(labels) + ([V] if labels["weights"] == "integers" and labels["operators"] == "tuple" else [])),
    "LinearParent": Door(LinearParent, {"op": function(), "adj_op": function()}, use=lambda i: [i.op(X0), i.adj_op(X0)]),
    "ProximityParent": Door(ProximityParent, {"op": function(), "cost": function()}, use=lambda i: [i.op(X0), i.cost(X0)]),
    "GradParent": Door(
        GradParent,
        {"input_data": [good("array", lambda: X0.copy()), good("list", lambda: [1.0, 2.0]), bad(T, "number", lambda: 3.0),
                        bad(T, "none", lambda: None), good("integers", lambda: np.array([1, 2, 3]))],
         "op": function(), "trans_op": function(), "get_grad": optional(), "cost": optional(),
         "data_type": [left_out(), good("none", lambda: None), good("floating", lambda: np.floating), good("complex", lambda: complex),
                       good("int", lambda: int)],
         "verbose": [good("no", lambda: False)]},
        # with the type float data are converted first, lists too
        lambda labels: [T] if (labels["data_type"], labels["input_data"]) in (
            ("complex", "array"), ("complex", "integers"), ("int", "array")) or (
            labels["input_data"] == "list" and labels["data_type"] != "floating") else [],
        lambda i: [i.op(X0), i.trans_op(X0), np.shape(i.obs_data)]),
    "OWL": Door(OrderedWeightedL1Norm, {"weights": [
        good("decreasing", lambda: np.array([3.0, 2.0, 1.0])), good("constant", lambda: np.ones(3)), good("zero", lambda: np.zeros(3)),
        good("matrix", lambda: np.array([[3.0, 2.0], [1.0, 0.0]])), bad(V, "increasing", lambda: np.array([1.0, 2.0, 3.0])),
        bad(V, "one rise", lambda: np.array([3.0, 1.0, 1.5])), bad(V, "negative", lambda: np.array([1.0, 0.0, -1.0])),
        bad(V, "all negative", lambda: np.array([-1.0, -2.0, -3.0])), bad(V, "across rows", lambda: np.array([[2.0, 1.0], [3.0, 0.0]])),
        bad(V, "last rises", lambda: np.array([2.0, 2.0, 2.0 + 1e-9])), bad(V, "hardly negative", lambda: np.array([2.0, 1.0, -1e-9]))]}),
    "KSupportNorm": Door(KSupportNorm, {"beta": [good("one", lambda: 1.0)], "k_value": [
        good("two", lambda: 2), good("one", lambda: 1), good("large", lambda: 3), bad(V, "zero", lambda: 0), bad(V, "negative", lambda: -2),
        bad(V, "half", lambda: 0.5), bad(V, "hardly below", lambda: 1 - 1e-9)]}, use=lambda i: [i.op(X0)]),
    "LowRankMatrix": Door(lambda **kw: LowRankMatrix(0.3, **kw).op(CUBE.copy()), {
        "lowr_type": [left_out(), good("standard", lambda: "standard"), good("ngole", lambda: "ngole"), bad(V, "unknown", lambda: "other"),
                      bad(V, "empty", lambda: ""), bad(V, "capital", lambda: "Standard")],
        "thresh_type": [good("soft", lambda: "soft"), good("hard", lambda: "hard"), bad(V, "unknown", lambda: "firm")],
        "operator": [good("function", lambda: lambda a: a), bad(None, "left out", lambda: LEFT_OUT)]},
        lambda labels: [T] if labels["lowr_type"] == "ngole" and labels["operator"] == "left out" else []),
    "SparseThreshold": Door(lambda **kw: SparseThreshold(lin(), np.ones(3), **kw).op(X0.copy()), {
        "thresh_type": [left_out(), good("soft", lambda: "soft"), good("hard", lambda: "hard"), bad(V, "unknown", lambda: "firm"),
                        bad(V, "none", lambda: None), bad(V, "capital", lambda: "Soft")]}),
    "WaveletTransform": Door(lambda **kw: WaveletTransform(shape=(4, 4), level=1, **kw), {
        "wavelet_name": [good("haar", lambda: "haar"), good("db2", lambda: "db2"), bad(V, "unknown", lambda: "haarr"), bad(V, "empty", lambda: "")],
        "compute_backend": [left_out(), good("numpy", lambda: "numpy"), bad(V, "unknown", lambda: "jax"), bad(V, "cupy", lambda: "cupy")],
        "decimated": [left_out(), good("yes", lambda: True), bad(NotImplementedError, "no", lambda: False)]},
        use=lambda i: [i.op(np.arange(16.0).reshape(4, 4))]),
    "reweight": Door(lambda input_data: cwbReweight(np.ones((2, 3))).reweight(input_data), {"input_data": [
        good("same", lambda: np.ones((2, 3))), bad(V, "transposed", lambda: np.ones((3, 2))), bad(V, "row", lambda: np.ones(3)),
        bad(V, "column", lambda: np.ones((2, 1))), bad(V, "flat", lambda: np.ones(6)), bad(V, "scalar", lambda: np.ones(())),
        bad(V, "deeper", lambda: np.ones((1, 2, 3)))]}),
    "check_callable": Door(check_callable, {"input_obj": function()}),
    "check_float": Door(check_float, {"input_obj": [
        good("float", lambda: 1.5), good("int", lambda: 2), good("list", lambda: [1, 2]), good("tuple", lambda: (1, 2)),
        good("array", lambda: X0.copy()), bad(T, "text", lambda: "1.0"), bad(T, "none", lambda: None), bad(T, "dictionary", dict),
        bad(T, "complex", lambda: 1j), bad(T, "set", lambda: {1.0})]}, use=lambda v: [v]),
    "check_int": Door(check_int, {"input_obj": [
        good("int", lambda: 2), good("float", lambda: 1.5), good("list", lambda: [1, 2]), good("tuple", lambda: (1, 2)),
        good("array", lambda: X0.copy()), bad(T, "text", lambda: "1"), bad(T, "none", lambda: None), bad(T, "dictionary", dict),
        bad(T, "complex", lambda: 1j), bad(T, "set", lambda: {1})]}, use=lambda v: [v]),
    "check_npndarray": Door(check_npndarray, {
        "input_obj": [good("floats", lambda: X0.copy()), good("integers", lambda: np.array([1, 2])), bad(T, "list", lambda: [1.0]),
                      bad(T, "number", lambda: 1.0), bad(T, "none", lambda: None), bad(T, "scalar", lambda: np.float64(1.0))],
        "dtype": [left_out(), good("none", lambda: None), good("floating", lambda: np.floating), good("integer", lambda: np.integer)],
        "writeable": [left_out(), good("no", lambda: False)], "verbose": [good("no", lambda: False)]},
        lambda labels: [T] if (labels["dtype"], labels["input_obj"]) in (("floating", "integers"), ("integer", "floats")) else []),
    "thresh": Door(lambda **kw: thresh(X0.copy(), 0.7, **kw), {"threshold_type": [
        left_out(), good("soft", lambda: "soft"), good("hard", lambda: "hard"), bad(V, "unknown", lambda: "firm"), bad(V, "capital", lambda: "Hard"),
        bad(V, "empty", lambda: ""), bad(V, "none", lambda: None)]}, use=lambda v: [v]),
    "add_noise": Door(lambda **kw: add_noise(CUBE.copy(), rng=1, **kw), {
        "sigma": [left_out(), good("number", lambda: 0.5), good("list", lambda: [1.0, 2.0, 3.0]), good("array", lambda: np.ones(3)),
                  bad(V, "too few", lambda: [1.0, 2.0]), bad(V, "too many", lambda: (1.0, 2.0, 3.0, 4.0)), bad(V, "single", lambda: np.ones(1))],
        "noise_type": [left_out(), good("gauss", lambda: "gauss"), bad(V, "unknown", lambda: "salt"), bad(V, "empty", lambda: ""),
                       bad(V, "capital", lambda: "Gauss")]}, use=lambda v: [v]),
    "positive": Door(positive, {"input_data": [
        good("array", lambda: X0.copy()), good("float", lambda: -1.5), good("int", lambda: -2), good("list", lambda: [1.0, -1.0]),
        bad(T, "text", lambda: "1"), bad(T, "none", lambda: None), bad(T, "dictionary", dict), bad(T, "complex", lambda: 1j), bad(T, "set", lambda: {1})]},
        use=lambda v: [np.array(v)]),
    "svd": Door(calculate_svd, {"input_data": [
        good("matrix", lambda: MAT.copy()), bad(T, "vector", lambda: X0.copy()), bad(T, "cube", lambda: CUBE.copy()),
        bad(T, "list", lambda: [[1.0, 2.0], [3.0, 4.0]]), bad(T, "none", lambda: None)]}),
    "find_n_pc": Door(lambda u_vec: find_n_pc(u_vec), {"u_vec": [
        good("square", lambda: np.linalg.svd(data((9, 9), 7))[0]), bad(V, "eight rows", lambda: np.linalg.svd(data((8, 8), 7))[0]),
        bad(V, "two rows", lambda: np.eye(2)), bad(V, "ten rows", lambda: np.eye(10))]}),
    "svd_thresh": Door(lambda **kw: svd_thresh(MAT.copy(), threshold=0.5, **kw), {
        "n_pc": [good("two", lambda: 2), good("all", lambda: "all"), left_out(), good("none", lambda: None), bad(V, "zero", lambda: 0),
                 bad(V, "negative", lambda: -1), bad(V, "some", lambda: "some"), bad(V, "fraction", lambda: 1.5), bad(V, "list", lambda: [2])],
        "thresh_type": [good("hard", lambda: "hard"), good("soft", lambda: "soft"), bad(V, "unknown", lambda: "firm")]}),
    "svd_thresh_coef": Door(lambda operator, **kw: svd_thresh_coef(MAT.copy(), operator, 0.3, **kw), {
        "operator": [good("function", lambda: lambda a: a), *function()[1:]],
        "thresh_type": [left_out(), good("soft", lambda: "soft"), bad(V, "unknown", lambda: "firm")]}),
    "gram_schmidt": Door(lambda **kw: gram_schmidt(np.array([[1.0, 2.0], [0.0, 3.0]]), **kw), {"return_opt": [
        left_out(), good("both", lambda: "both"), good("orthogonal", lambda: "orthogonal"), bad(V, "unknown", lambda: "all"),
        bad(V, "none", lambda: None), bad(V, "empty", lambda: "")]}),
    "rotate": Door(lambda matrix: rotate(matrix, np.pi / 2), {"matrix": [
        good("square", lambda: np.arange(9.0).reshape(3, 3)), bad(V, "tall", lambda: np.ones((3, 2))), bad(V, "wide", lambda: np.ones((2, 5)))]}),
    "convolve": Door(lambda **kw: convolve(**kw), {
        "input_data": [good("2D", lambda: data((4, 5), 1)), good("1D", lambda: data((5,), 2)), good("3D", lambda: data((3, 4, 4), 3))],
        "kernel": [good("2D", lambda: data((3, 3), 4)), good("1D", lambda: data((3,), 5)), good("3D", lambda: data((3, 3, 3), 6))],
        "method": [good("scipy", lambda: "scipy"), good("astropy", lambda: "astropy"), bad(V, "unknown", lambda: "fft"), bad(V, "capital", lambda: "SciPy"),
                   bad(V, "empty", lambda: "")]}, shapes),
    "convolve_stack": Door(lambda **kw: convolve_stack(data((2, 4, 4), 1), data((2, 3, 3), 2), **kw), {
        "method": [good("scipy", lambda: "scipy"), bad(V, "unknown", lambda: "fft")],
        "rot_kernel": [left_out(), good("yes", lambda: True)]}),
    "gaussian_kernel": Door(lambda **kw: gaussian_kernel((3, 5), 1.0, **kw), {"norm": [
        left_out(), good("max", lambda: "max"), good("sum", lambda: "sum"), bad(V, "unknown", lambda: "l2"), bad(V, "capital", lambda: "Max")]},
        use=lambda v: [v]),
    "psnr": Door(lambda **kw: psnr(CUBE[0], CUBE[1], **kw), {"method": [
        left_out(), good("starck", lambda: "starck"), good("wiki", lambda: "wiki"), bad(V, "unknown", lambda: "other"), bad(V, "capital", lambda: "Wiki"),
        bad(V, "empty", lambda: "")]}, use=lambda v: [v]),
    "psnr_stack": Door(lambda **kw: psnr_stack(kw["data1"], kw["data2"], method=kw["method"]), {
        "data1": [good("cube", lambda: CUBE.copy()), bad(V, "image", lambda: CUBE[0]), bad(V, "four", lambda: CUBE[None])],
        "data2": [good("cube", lambda: CUBE + 1.0), bad(V, "image", lambda: CUBE[0]), bad(V, "four", lambda: CUBE[None])],
        "method": [good("wiki", lambda: "wiki"), bad(V, "unknown", lambda: "other")]}, use=lambda v: [v]),
    "transpose_test": Door(lambda operator, operator_t: transpose_test(operator, operator_t, (3,), rng=1), {
        "operator": [good("function", lambda: lambda x, a: x), *function()[1:]],
        "operator_t": [good("function", lambda: lambda x, a: x), *function()[1:]]}),
    "Observable": Door(lambda signal: Observable(["here", "there"]).add_observer(signal, len), {"signal": [
        good("here", lambda: "here"), good("there", lambda: "there"), bad(V, "unknown", lambda: "nowhere"), bad(V, "part", lambda: "her"),
        bad(V, "none", lambda: None), bad(V, "empty", lambda: "")]}),
}


def snapshot(made):
    return {n: (v.copy(), v.flags.writeable) for n, v in made.items() if isinstance(v, np.ndarray) and v.dtype != object}


def shown(door, inst):
    return [np.array(v) for v in door.use(inst)] if door.use else []


USUAL = {}


def usual(name):
    """What a call with ordinary arguments does."""
    door = DOORS[name]
    made, refusals = door.values({arg: vals[0][0] for arg, vals in door.args.items()})
    assert not refusals, name
    return shown(door, door.fn(**made))


def one(case, obs):
    door, name = DOORS[case["door"]], case["door"]
    if name not in USUAL:
        USUAL[name] = usual(name)
    labels = {arg: vals[0][0] for arg, vals in door.args.items()}
    labels.update(case["labels"])
    made, refusals = door.values(labels)
    before = snapshot(made)
    what = f"{name} with {case['labels']}"
    if refusals:
        kinds = tuple(k for r in refusals for k in (r if isinstance(r, tuple) else (r,)))
        obs.raises(kinds, lambda: door.fn(**made), what)
    else:
        shown(door, door.fn(**made))
    for arg, (value, writeable) in before.items():
        obs.exact(made[arg], value, f"{what}: argument {arg}")
        # observed data are made read-only on purpose
        obs.check(made[arg].flags.writeable is writeable or name == "GradParent" or (name == "check_npndarray" and not refusals),
                  "{}: argument {} is writeable: {}", what, arg, made[arg].flags.writeable)
    if refusals:
        # nothing is left of a refused call
        for got, want in zip(usual(name), USUAL[name]):
            obs.close(got, want, f"an ordinary call after {what}")
    obs.state(name, tuple(labels.items()))
    obs.outcome(name, bool(refusals), tuple(case["labels"].items()))


def _parent():
    return GradParent(X0.copy(), lambda x: 2 * x, lambda x: 3 * x, get_grad=lambda x: x, cost=lambda x: 7.0, verbose=False)


def _solver():
    return alg.ForwardBackward(X0, grad(), prox(), cost=None, **SINGLE)


# members that can be replaced: maker, member, valid values, refused values, what it does
MEMBERS = {
    "GradParent.obs_data": (_parent, "obs_data", [lambda: X0 + 1, lambda: np.ones(2)], [(T, lambda: [1.0]), (T, lambda: 3.0), (T, lambda: None)],
                            lambda i: i.obs_data),
    "GradParent.op": (_parent, "op", [lambda: lambda x: x + 1, lambda: lambda x: 5 * x], [(T, lambda: 3), (T, lambda: None), (T, lambda: "f")],
                      lambda i: i.op(X0)),
    "GradParent.trans_op": (_parent, "trans_op", [lambda: lambda x: x + 1, lambda: lambda x: 5 * x], [(T, lambda: 3), (T, lambda: None)],
                            lambda i: [i.trans_op(X0), i.trans_op_op(X0)]),
    "GradParent.get_grad": (_parent, "get_grad", [lambda: lambda x: x + 1, lambda: lambda x: 5 * x], [(T, lambda: 3), (T, lambda: None)],
                            lambda i: i.get_grad(X0)),
    "GradParent.cost": (_parent, "cost", [lambda: lambda x: 1.0, lambda: lambda x: 5.0], [(T, lambda: 3), (T, lambda: None)], lambda i: i.cost(X0)),
    "GradBasic.obs_data": (lambda: GradBasic(X0.copy(), lambda x: 2 * x, lambda x: 3 * x, verbose=False), "obs_data",
                           [lambda: X0 + 1, lambda: np.ones(3)], [(T, lambda: [1.0]), (T, lambda: None)],
                           lambda i: [i.get_grad(X0) or i.grad, i.cost(X0)]),
    "LinearParent.op": (lambda: LinearParent(lambda x: 2 * x, lambda x: 3 * x), "op", [lambda: lambda x: x + 1, lambda: lambda x: 5 * x],
                        [(T, lambda: 3), (T, lambda: None)], lambda i: [i.op(X0), i.adj_op(X0)]),
    "LinearParent.adj_op": (lambda: LinearParent(lambda x: 2 * x, lambda x: 3 * x), "adj_op", [lambda: lambda x: x + 1, lambda: lambda x: 5 * x],
                            [(T, lambda: 3), (T, lambda: None)], lambda i: [i.op(X0), i.adj_op(X0)]),
    "ProximityParent.op": (lambda: ProximityParent(lambda x: 2 * x, lambda x: 3.0), "op", [lambda: lambda x: x + 1, lambda: lambda x: 5 * x],
                           [(T, lambda: 3), (T, lambda: None)], lambda i: [i.op(X0), i.cost(X0)]),
    "ProximityParent.cost": (lambda: ProximityParent(lambda x: 2 * x, lambda x: 3.0), "cost", [lambda: lambda x: 1.0, lambda: lambda x: 5.0],
                             [(T, lambda: 3), (T, lambda: None)], lambda i: [i.op(X0), i.cost(X0)]),
    "KSupportNorm.k_value": (lambda: KSupportNorm(0.7, 2), "k_value", [lambda: 1, lambda: 3], [(V, lambda: 0), (V, lambda: -1), (V, lambda: 0.5)],
                             lambda i: [i.k_value, i.op(X0)]),
    "solver.metrics": (_solver, "metrics", [lambda: None, dict], [(T, lambda: [1]), (T, lambda: 3), (T, lambda: "m")],
                       lambda i: len(i.metrics)),
}


def flat(value):
    return [leaf for part in value for leaf in flat(part)] if isinstance(value, (list, tuple)) else [0 if value is None else value]


def member(case, obs):
    """A word of valid (a, b) and refused (x, y, z) assignments: the last valid one counts."""
    build, name, valid, refused, show = MEMBERS[case["member"]]
    inst, last = build(), None
    for k, letter in enumerate(case["word"]):
        if letter in "ab":
            last = valid["ab".index(letter)]
            setattr(inst, name, last())
        else:
            kind, maker = refused["xyz".index(letter) % len(refused)]
            obs.raises((kind,), lambda: setattr(inst, name, maker()), f"{case['member']}, assignment {k}")
        ref = build()
        if last:
            setattr(ref, name, last())
        for got, want in zip(flat(show(inst)), flat(show(ref))):
            obs.close(got, want, f"{case['member']} after {case['word'][: k + 1]}")
        obs.state(case["member"], case["word"][: k + 1])
    obs.outcome(case["member"], case["word"])


def words(door, depth):
    """All choices of values that are not the ordinary one for up to ``depth`` arguments."""
    names = list(door.args)
    for n in range(depth + 1):
        for some in itertools.combinations(names, n):
            for values in itertools.product(*([tag for tag, *_ in door.args[a][1:]] for a in some)):
                yield dict(zip(some, values))


def run(ctx):
    cases = [dict(door=name, labels=labels) for name, door in DOORS.items()
             for labels in words(door, ctx.pick(3, 4) if name not in ("FISTA", "LinearCombo", "LowRankMatrix", "convolve") else 5)]
    ctx.explore("all words of arguments", cases, one)
    args = fista_args()
    door = DOORS["ForwardBackward"]
    cases = [dict(door="ForwardBackward", labels=dict(zip(args, values)))
             for values in itertools.product(*([tag for tag, *_ in door.args[a]] for a in args))]
    ctx.explore("all restart settings of a solver", cases, one)
    cases = [dict(member=m, word="".join(w)) for m in MEMBERS for n in range(1, ctx.pick(5, 7)) for w in itertools.product("abxyz", repeat=n)]
    ctx.explore("all words of assignments", cases, member)
