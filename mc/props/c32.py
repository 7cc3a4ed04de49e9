"""C32: an argument left out stands for its documented default."""

import contextlib
import io
import itertools
import logging
import os
import re
import shutil
import tempfile
import warnings

import numpy as np

from modopt.base.np_adjust import fancy_transpose
from modopt.base.observable import MetricObserver
from modopt.base.types import check_npndarray
from modopt.interface.errors import catch_error, warn
from modopt.interface.log import close_log, set_up_log
from modopt.math import convolve, matrix, metrics, stats
from modopt.opt import algorithms as alg
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import LinearCombo, WaveletConvolve, WaveletTransform
from modopt.opt.proximity import (ElasticNet, GroupLASSO, KSupportNorm, LinearCompositionProx, LowRankMatrix,
                                  OrderedWeightedL1Norm, ProximityCombo, Ridge, SparseThreshold)
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, validation, wavelet

from ..common import data
from ..common import matrix as some_matrix
from ..solvers import World


def listen(fn):
    """Value, printed text and noise of a call."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        value = fn()
    lines = re.split(r"[\r\n]+", err.getvalue())
    # a progress bar shows times: only whether there is one is compared
    bar = any("it/s" in line or "s/it" in line or "?it" in line for line in lines)
    rest = [line for line in lines if line.strip() and "it/s" not in line and "s/it" not in line and "?it" not in line]
    return value, out.getvalue(), (bar, rest), [str(w.message) for w in seen]


class Op:
    def __init__(self, factor):
        self.factor = factor

    def op(self, x):
        return self.factor * x

    adj_op = cost = op


class Costs:
    """Values of a cost function, one per call."""

    def __init__(self, *values):
        self.values, self.calls = values, 0

    def cost(self, *args, **kwargs):
        self.calls += 1
        return self.values[min(self.calls, len(self.values)) - 1]


# ---- how each callable is put to use: base arguments and options -> outcome

def metric_observer(kw):
    out = []
    for tail in (1.0, 1.0005, 1.0015, 1.003):
        inst = MetricObserver("m", lambda value: value, {"value": "value"}, {}, **kw)
        for i, value in enumerate([5.0, 2.0, 1.0, 1.0, 1.0, tail, tail, tail, 9.0]):
            inst(type("S", (), {"value": value, "idx": i})())
            out.append(bool(inst.converge_flag))
    return out


def ndarray(kw):
    out = []
    for dtype in (float, int, complex):
        x = np.ones(2, dtype)
        try:
            check_npndarray(x, **kw)
            out.append(x.flags.writeable)
        except TypeError:
            out.append("refused")
    return out


class Log:
    """A log that keeps its messages."""

    def __init__(self):
        self.lines = []

    def warning(self, text):
        self.lines.append(text)

    exception = warning


def log_file(kw):
    here = tempfile.mkdtemp()
    old = os.getcwd()
    os.chdir(here)
    try:
        log = set_up_log("name", **kw)
        close_log(log, **kw)
        logging.captureWarnings(False)
        return os.listdir(here)
    finally:
        os.chdir(old)
        shutil.rmtree(here)


def power(kw):
    mat = np.array([[2.0, 0.3, 0.1], [0.3, 1.9, 0.2], [0.1, 0.2, 1.0]])
    inst = matrix.PowerMethod(lambda x: mat @ x, (3,), rng=3, **kw)
    return [getattr(inst, "spec_rad", None), getattr(inst, "inv_spec_rad", None), inst.compute_backend]


def spectrum(kw):
    out = []
    for gap in (0.99, 0.6, 0.3):
        inst = matrix.PowerMethod(lambda x: np.array([1.0, gap]) * x, (2,), rng=3, auto_run=False)
        inst.get_spec_rad(**kw)
        out.append(inst.spec_rad)
    return out


def power_type(kw):
    inst = matrix.PowerMethod(lambda x: np.array([2.0, 1.0]) * x, (2,), rng=3, auto_run=False, **kw)
    first = inst._operator(inst._set_initial_x()) if hasattr(inst, "_set_initial_x") else np.ones(2)
    return first.dtype.str


def cost_object(kw):
    out = []
    for tail in (1.0, 1.00005, 1.00015, 1.002):
        inst = costObj([Costs(3, 3, 3, 1, 1, tail, tail, tail, tail, tail, tail, tail)], **kw)
        out.append(inst.cost)
        for _ in range(12):
            out += [bool(inst.get_cost(0)), float(inst.cost)]
    return out


def gradient(kw):
    out = []
    for y in (np.arange(4.0), np.arange(4)):
        mat = some_matrix(4, 4, 1)
        inst = GradBasic(y, lambda x: mat @ x, lambda x: mat.T @ x, **kw)
        inst.get_grad(np.ones(4))
        out += [inst.grad, inst.obs_data.flags.writeable, inst.obs_data.dtype.str, inst.cost(np.ones(4)), y.flags.writeable]
    return out


class Metric:
    def __init__(self):
        self.seen = []

    def __call__(self, x, idx):
        self.seen.append((idx, np.array(x)))
        return float(idx)


TRACE = []


def run_solver(cls, args, kw, call=None, attributes=()):
    """All points an operator was asked at, and the metrics."""
    metric, kw = Metric(), dict(kw)
    del TRACE[:]
    if kw.get("metrics") == "given":
        kw["metrics"] = {"m": {"metric": metric, "mapping": {"x_new": "x", "idx": "idx"}, "cst_kwargs": {},
                               "early_stopping": False}}
    algo = cls(*args(), **kw)
    out = [len(metric.seen), [i for i, _ in metric.seen], [x for _, x in metric.seen]]
    for attribute in attributes:
        out.append(getattr(algo, attribute, None))
    if call is not None:
        algo.iterate(**call)
        out += [[i for i, _ in metric.seen], [x for _, x in metric.seen]]
    if algo.metrics and call is not None:
        out.append(algo.metrics["m"]["index"])
    return out + [np.array(x) for x in TRACE]


def world(value=None):
    w = World((2,))
    x0 = w.x0
    mat = np.array([[1.0, 0.2], [0.2, 0.7]])
    from ..common import Grad, Linear, Prox
    grad = Grad(lambda x: TRACE.append(np.array(x)) or 0.3 * (mat @ x - w.target), lambda x: float(np.sum((mat @ x - w.target) ** 2)))
    prox = Prox(lambda x, f: np.sign(x) * np.maximum(np.abs(x) - 0.01 * f, 0), lambda x: 0.01 * float(np.sum(np.abs(x))))
    ridge = Prox(lambda x, f: x / (1 + 0.1 * f), lambda x: 0.05 * float(np.sum(x ** 2)))
    return x0, grad, prox, ridge, Linear(0.5 * np.eye(2))


def fb_args():
    x0, grad, prox, _, _ = world()
    return x0, grad, prox


def gen_args():
    x0, grad, prox, ridge, _ = world()
    return x0, grad, [prox, ridge]


def pogm_args():
    x0, grad, prox, _, _ = world()
    return x0, x0, x0, x0, grad, prox


def condat_args():
    x0, grad, prox, ridge, _ = world()
    return x0, x0, grad, prox, ridge


def descent_args():
    x0, grad, prox, _, _ = world()
    return x0, grad, prox, None


def admm_args():
    x0, _, _, _, lin = world()
    return (x0, x0, 0 * x0, lin, lin, 0.5 * x0,
            (lambda init, obs: TRACE.append(np.array(init)) or 0.5 * init - 0.25 * obs, lambda init, obs: 0.4 * init + 0.2 * obs))


COMMON = {"metric_call_period": 5, "metrics": None, "verbose": False, "progress": True, "step_size": None,
          "compute_backend": "numpy"}
COMMON_ALT = {"metric_call_period": 1, "metrics": "given", "verbose": True, "progress": False, "step_size": 0.2}
FISTA = {"restart_strategy": None, "min_beta": None, "s_greedy": None, "xi_restart": None, "a_cd": None, "p_lazy": 1,
         "q_lazy": 1, "r_lazy": 4}
GREEDY = {"restart_strategy": "greedy", "min_beta": 0.3, "s_greedy": 1.1, "xi_restart": 0.96}


def schedule(x):
    return 0.99 * x


def halving(x, i):
    return x * 0.9


def solver(cls, args, defaults, alts, always=None, **more):
    return (lambda kw: run_solver(cls, args, {**(always or {}), **kw}, **more), {**COMMON, **defaults},
            {**COMMON_ALT, **alts})


IMG = data((4, 5), 3)
KER = data((3, 3), 4)
CUBE = data((3, 4, 4), 5)
POS = np.abs(data((11, 11), 6)) / np.max(np.abs(data((11, 11), 6)))
POS2 = np.abs(data((11, 11), 7)) / np.max(np.abs(data((11, 11), 7)))
VEC = np.array([3.0, -1.0, 0.4, 0.0, -2.5])
W = np.array([1.0, 0.5, 0.3, 0.2, 2.0])


def factor(make):
    """The extra factor of a proximity operator."""
    return lambda kw: make().op(VEC.copy(), **kw)


def masks():
    mask = np.ones(POS.shape)
    mask[2:5, 3:] = 0
    return mask


def weights_of(kw):
    inst = cwbReweight(np.abs(VEC) + 1, **kw)
    inst.reweight(VEC)
    return inst.weights


def iterations(cls, args, extra):
    def outcome(kw):
        return run_solver(cls, args, {"progress": False, "metric_call_period": 1, "metrics": "given",
                                     "linear": world()[4], **extra}, call=kw)
    return outcome


def transpose(kw):
    kw = dict(kw)
    rng = kw.pop("rng", None)
    seen = []

    def op(x, *args):
        seen.append((x.shape, args))
        return 2 * x

    validation.transpose_test(op, op, (2, 3), rng=1 if rng is None else rng, **kw)
    return seen


ENTRIES = {
    "fancy_transpose": (lambda kw: fancy_transpose(CUBE, **kw), {"roll": 1}, {"roll": 2}),
    "MetricObserver": (metric_observer, {"early_stopping": False, "wind": 6, "eps": 1e-3},
                       {"early_stopping": True, "wind": 4, "eps": 0.01}),
    "MetricObserver early": (lambda kw: metric_observer({"early_stopping": True, **kw}), {"wind": 6, "eps": 1e-3},
                             {"wind": 4, "eps": 0.01}),
    "check_npndarray locking": (lambda kw: ndarray({"writeable": False, **kw}), {"dtype": None, "verbose": True},
                                {"verbose": False}),
    "check_npndarray": (ndarray, {"dtype": None, "writeable": True, "verbose": True},
                        {"dtype": np.floating, "writeable": False, "verbose": False}),
    "warn": (lambda kw: warn("text", **kw), {"log": None}, {}),
    "catch_error": (lambda kw: catch_error("text", **kw), {"log": None}, {}),
    "log file": (log_file, {"verbose": True}, {"verbose": False}),
    "convolve": (lambda kw: convolve.convolve(IMG, KER, **kw), {"method": "scipy"}, {"method": "astropy"}),
    "convolve_stack": (lambda kw: convolve.convolve_stack(CUBE, data((3, 3, 3), 2), **kw),
                       {"rot_kernel": False, "method": "scipy"}, {"rot_kernel": True, "method": "astropy"}),
    "gram_schmidt": (lambda kw: matrix.gram_schmidt(some_matrix(3, 3, 4), **kw), {"return_opt": "orthonormal"},
                     {"return_opt": "orthogonal"}),
    "PowerMethod": (power, {"data_type": float, "auto_run": True, "compute_backend": "numpy", "verbose": False},
                    {"auto_run": False, "verbose": True}),
    "get_spec_rad": (spectrum, {"tolerance": 1e-6, "max_iter": 20, "extra_factor": 1.0},
                     {"tolerance": 1e-3, "max_iter": 7, "extra_factor": 1.5}),
    "gaussian_kernel": (lambda kw: stats.gaussian_kernel((3, 5), 1.2, **kw), {"norm": "max"}, {"norm": "sum"}),
    "stats.psnr": (lambda kw: stats.psnr(255 * POS, 255 * POS2, **kw), {"method": "starck", "max_pix": 255},
                   {"method": "wiki"}),
    "stats.psnr wiki": (lambda kw: stats.psnr(255 * POS, 255 * POS2, method="wiki", **kw), {"max_pix": 255},
                        {"max_pix": 200}),
    "psnr_stack": (lambda kw: stats.psnr_stack(np.abs(CUBE), np.abs(CUBE[::-1]), **kw),
                   {"metric": np.mean, "method": "starck"}, {"metric": np.median, "method": "wiki"}),
    **{f"metrics.{m}": (lambda kw, m=m: getattr(metrics, m)(POS, POS2, **kw), {"mask": None}, {"mask": masks()})
       for m in ("ssim", "snr", "psnr", "mse", "nrmse")},
    "costObj": (cost_object, {"initial_cost": 1e6, "tolerance": 1e-4, "cost_interval": 1, "test_range": 4,
                              "verbose": True, "plot_output": None},
                {"initial_cost": 5.0, "tolerance": 0.01, "cost_interval": 2, "test_range": 6, "verbose": False}),
    "GradBasic": (gradient, {"get_grad": None, "cost": None, "data_type": None, "input_data_writeable": False,
                             "verbose": True},
                  {"cost": lambda x, **k: 7.0, "data_type": float, "input_data_writeable": True, "verbose": False}),
    "LinearCombo": (lambda kw: [f(LinearCombo([Op(2.0), Op(3.0)], **kw)) for f in (
        lambda c: c.op(VEC), lambda c: c.adj_op(np.array([VEC, VEC ** 2])))], {"weights": None},
        {"weights": np.array([0.3, 0.7])}),
    "WaveletConvolve": (lambda kw: WaveletConvolve(data((2, 3, 3), 3), **kw).op(IMG[None]), {"method": "scipy"},
                        {"method": "astropy"}),
    "WaveletTransform": (lambda kw: (lambda t: [t.coeffs_shape, t.op(data((64, 64), 1))])(WaveletTransform(
        "haar", (64, 64), **kw)), {"level": 4, "compute_backend": "numpy"}, {"level": 2}),
    "WaveletTransform options": (lambda kw: (lambda t: [t.coeffs_shape, t.op(data((16, 16), 1))])(WaveletTransform(
        "db2", (16, 16), level=1, **kw)), {"n_batch": 1, "n_jobs": 1, "decimated": True, "backend": "threading",
                                           "verbose": 0}, {}),
    "SparseThreshold": (lambda kw: SparseThreshold(Op(1.0), 0.5 * W, **kw).op(VEC), {"thresh_type": "soft"},
                        {"thresh_type": "hard"}),
    "LowRankMatrix": (lambda kw: LowRankMatrix(0.3, **kw).op(CUBE), {
        "thresh_type": "soft", "lowr_type": "standard", "initial_rank": None, "operator": None},
        {"thresh_type": "hard"}),
    "LowRankMatrix.op": (lambda kw: LowRankMatrix(0.3).op(CUBE, **kw), {"extra_factor": 1.0, "rank": None},
                         {"extra_factor": 2.0}),
    "LowRankMatrix ngole": (lambda kw: LowRankMatrix(0.3, lowr_type="ngole", operator=lambda x: 2 * x, **kw).op(CUBE), {
        "thresh_type": "soft", "initial_rank": None}, {"thresh_type": "hard"}),
    "SparseThreshold.op": (factor(lambda: SparseThreshold(Op(1.0), 0.5 * W)), {"extra_factor": 1.0}, {"extra_factor": 2.0}),
    "LinearCompositionProx.op": (factor(lambda: LinearCompositionProx(Op(1.0), SparseThreshold(Op(1.0), 0.5 * W))),
                                 {"extra_factor": 1.0}, {"extra_factor": 2.0}),
    "ProximityCombo.op": (lambda kw: list(ProximityCombo([SparseThreshold(Op(1.0), 0.5), SparseThreshold(Op(1.0), 0.3)]).op(
        np.array([VEC, VEC]), **kw)), {"extra_factor": 1.0}, {"extra_factor": 2.0}),
    "OrderedWeightedL1Norm.op": (factor(lambda: OrderedWeightedL1Norm(np.sort(W)[::-1])), {"extra_factor": 1.0},
                                 {"extra_factor": 2.0}),
    "Ridge.op": (factor(lambda: Ridge(Op(1.0), 0.5 * W)), {"extra_factor": 1.0}, {"extra_factor": 2.0}),
    "ElasticNet.op": (factor(lambda: ElasticNet(Op(1.0), 0.5, 0.3 * W)), {"extra_factor": 1.0}, {"extra_factor": 2.0}),
    "KSupportNorm.op": (factor(lambda: KSupportNorm(0.5, 2)), {"extra_factor": 1.0}, {"extra_factor": 2.0}),
    "GroupLASSO.op": (lambda kw: GroupLASSO(0.5 * W).op(np.array([VEC, VEC[::-1]]), **kw), {"extra_factor": 1.0},
                      {"extra_factor": 2.0}),
    "cwbReweight": (weights_of, {"thresh_factor": 1.0, "verbose": False}, {"thresh_factor": 2.0, "verbose": True}),
    "gaussian_filter": (lambda kw: sfilter.gaussian_filter(VEC, 0.7, **kw), {"norm": True}, {"norm": False}),
    "add_noise": (lambda kw: noise.add_noise(IMG, rng=4, **kw), {"sigma": 1.0, "noise_type": "gauss"},
                  {"sigma": 2.0}),
    "thresh": (lambda kw: noise.thresh(VEC, 0.7, **kw), {"threshold_type": "hard"}, {"threshold_type": "soft"}),
    "positive": (lambda kw: positivity.positive(IMG, **kw), {"ragged": False}, {}),
    "find_n_pc": (lambda kw: [svd.find_n_pc(svd.svd(some_matrix(9, 9, s))[0], **kw) for s in range(12)],
                  {"factor": 0.5}, {"factor": 0.1}),
    "svd_thresh": (lambda kw: svd.svd_thresh(some_matrix(9, 9, 3), **kw),
                   {"threshold": None, "n_pc": None, "thresh_type": "hard"},
                   {"threshold": 0.9, "n_pc": 2, "thresh_type": "soft"}),
    "svd_thresh_coef_fast": (lambda kw: [np.abs(svd.svd_thresh_coef_fast(some_matrix(12, 12, 3), 0.5, **kw)[0])],
                             {"n_vals": -1, "extra_vals": 5, "thresh_type": "hard"}, {"thresh_type": "soft"}),
    "svd_thresh_coef_fast rank": (lambda kw: svd.svd_thresh_coef_fast(some_matrix(30, 30, 3), 0.01, n_vals=2, **kw)[1:],
                                  {"extra_vals": 5, "thresh_type": "hard"}, {"extra_vals": 3, "thresh_type": "soft"}),
    "svd_thresh_coef": (lambda kw: svd.svd_thresh_coef(some_matrix(9, 4, 3), lambda x: 2 * x, 0.5, **kw),
                        {"thresh_type": "hard"}, {"thresh_type": "soft"}),
    "transpose_test": (transpose, {"x_args": None, "y_shape": None, "y_args": None}, {"x_args": 3, "y_args": 4}),
    "filter_convolve": (lambda kw: wavelet.filter_convolve(IMG, data((2, 3, 3), 3), **kw),
                        {"filter_rot": False, "method": "scipy"}, {"method": "astropy"}),
    "filter_convolve back": (lambda kw: wavelet.filter_convolve(data((2, 4, 5), 3), data((2, 3, 3), 3), filter_rot=True, **kw),
                             {"method": "scipy"}, {"method": "astropy"}),
    "filter_convolve_stack": (lambda kw: wavelet.filter_convolve_stack(IMG[None], data((2, 3, 3), 3), **kw),
                              {"filter_rot": False, "method": "scipy"}, {"method": "astropy"}),
    # solvers
    "ForwardBackward": solver(alg.ForwardBackward, fb_args, {
        "cost": "auto", "beta_param": 1.0, "lambda_param": 1.0, "beta_update": None, "lambda_update": "fista",
        "auto_iterate": True, "linear": None},
        {"cost": None, "beta_param": 0.5, "lambda_param": 0.7, "beta_update": schedule, "lambda_update": None,
         "auto_iterate": False, "linear": world()[4]}, attributes=("x_final", "y_final")),
    "ForwardBackward with metrics": solver(alg.ForwardBackward, fb_args, {"cost": "auto"}, {"cost": None},
                                           always={"linear": world()[4]}),
    "ForwardBackward plain": solver(alg.ForwardBackward, fb_args, {
        "beta_param": 1.0, "lambda_param": 1.0, "beta_update": None, "linear": None},
        {"beta_param": 0.5, "lambda_param": 0.7, "beta_update": schedule}, always={"lambda_update": None, "cost": None},
        attributes=("x_final",)),
    "FISTA options": (lambda kw: run_solver(alg.ForwardBackward, fb_args, {"progress": False, "cost": None, "metrics": "given", "linear": world()[4], **kw},
                                            attributes=("x_final",)), FISTA, {"a_cd": 3.0}),
    "FISTA p, q, r": (lambda kw: run_solver(alg.ForwardBackward, fb_args, {
        "progress": False, "cost": None, "auto_iterate": False, "metric_call_period": 1, "metrics": "given", "linear": world()[4], **kw}, call={"max_iter": 8}),
        FISTA, {"p_lazy": 0.5, "q_lazy": 0.7, "r_lazy": 3.0}),
    "FISTA greedy": (lambda kw: run_solver(alg.ForwardBackward, fb_args, {"progress": False, "cost": None, "metrics": "given", "linear": world()[4], **GREEDY, **kw},
                                           attributes=("x_final",)), {"a_cd": None, "p_lazy": 1, "q_lazy": 1, "r_lazy": 4},
                     {"q_lazy": 0.5}),
    "GenForwardBackward": solver(alg.GenForwardBackward, gen_args, {
        "cost": "auto", "gamma_param": 1.0, "lambda_param": 1.0, "gamma_update": None, "lambda_update": None,
        "weights": None, "auto_iterate": True, "linear": None},
        {"cost": None, "gamma_param": 0.5, "lambda_param": 0.7, "gamma_update": schedule, "lambda_update": schedule,
         "weights": np.array([0.3, 0.7]), "auto_iterate": False, "linear": world()[4]}, attributes=("x_final",)),
    "GenForwardBackward with metrics": solver(alg.GenForwardBackward, gen_args, {"cost": "auto"}, {"cost": None},
                                              always={"linear": world()[4]}),
    "POGM": solver(alg.POGM, pogm_args, {
        "cost": "auto", "linear": None, "beta_param": 1.0, "sigma_bar": 1.0, "auto_iterate": True},
        {"cost": None, "beta_param": 0.5, "sigma_bar": 0.5, "auto_iterate": False}, attributes=("x_final",)),
    "POGM damped": solver(alg.POGM, pogm_args, {"sigma_bar": 1.0}, {"sigma_bar": 0.5},
                          always={"cost": None, "beta_param": 4.0}, attributes=("x_final",)),
    "Condat": solver(alg.Condat, condat_args, {
        "linear": None, "cost": "auto", "reweight": None, "rho": 0.5, "sigma": 1.0, "tau": 1.0, "rho_update": None,
        "sigma_update": None, "tau_update": None, "auto_iterate": True, "max_iter": 150, "n_rewightings": 1},
        {"cost": None, "rho": 0.8, "sigma": 0.5, "tau": 0.4, "rho_update": schedule, "sigma_update": schedule,
         "tau_update": schedule, "auto_iterate": False, "max_iter": 20}, attributes=("x_final", "y_final")),
    **{name: solver(cls, descent_args, {"eta": 1.0, "eta_update": None, "epsilon": 1e-6, "epoch_size": 1, **more},
                    {"eta": 0.3, "eta_update": halving, "epsilon": 1.0, "epoch_size": 2, **{k: 0.4 for k in more}},
                    call={"max_iter": 7}, attributes=("x_final",))
       for name, cls, more in (
           ("Vanilla", alg.VanillaGenericGradOpt, {}), ("AdaGrad", alg.AdaGenericGradOpt, {}),
           ("RMSprop", alg.RMSpropGradOpt, {"gamma": 0.5}), ("Momentum", alg.MomentumGradOpt, {"beta": 0.9}),
           ("ADAM", alg.ADAMGradOpt, {"gamma": 0.9, "beta": 0.9}), ("SAGA", alg.SAGAOptGradOpt, {}))},
    "ADMM": solver(alg.ADMM, admm_args, {"tau": 1, "cost_funcs": None}, {
        "tau": 0.5, "cost_funcs": (lambda u: float(np.sum(u ** 2)), lambda v: 0.0)}, call={"max_iter": 7}),
    "FastADMM": solver(alg.FastADMM, admm_args, {"tau": 1, "cost_funcs": None, "alpha": 1, "eta": 0.999}, {
        "tau": 0.5, "alpha": 2.0, "eta": 0.5, "cost_funcs": (lambda u: float(np.sum(u ** 2)), lambda v: 0.0)}, call={"max_iter": 7}),
    # the number of iterations
    "ForwardBackward.iterate": (iterations(alg.ForwardBackward, fb_args, {"auto_iterate": False, "cost": None}),
                                {"max_iter": 150, "progbar": None}, {"max_iter": 20}),
    "GenForwardBackward.iterate": (iterations(alg.GenForwardBackward, gen_args, {"auto_iterate": False, "cost": None}),
                                   {"max_iter": 150, "progbar": None}, {"max_iter": 20}),
    "POGM.iterate": (iterations(alg.POGM, pogm_args, {"auto_iterate": False, "cost": None}),
                     {"max_iter": 150, "progbar": None}, {"max_iter": 20}),
    "Condat.iterate": (iterations(alg.Condat, condat_args, {"auto_iterate": False, "cost": None}),
                       {"max_iter": 150, "n_rewightings": 1, "progbar": None}, {"max_iter": 20}),
    "Condat.iterate reweighted": (lambda kw: iterations(alg.Condat, condat_args, {
        "auto_iterate": False, "cost": None, "reweight": cwbReweight(np.array([0.01, 0.02]))})(kw),
        {"max_iter": 150, "n_rewightings": 1, "progbar": None}, {"max_iter": 20, "n_rewightings": 2}),
    "descent.iterate": (iterations(alg.VanillaGenericGradOpt, descent_args, {}), {"max_iter": 150}, {"max_iter": 20}),
    "ADMM.iterate": (iterations(alg.ADMM, admm_args, {}), {"max_iter": 150}, {"max_iter": 20}),
    "FastADMM.iterate": (iterations(alg.FastADMM, admm_args, {}), {"max_iter": 150}, {"max_iter": 20}),
}


def flat(value):
    """A list of arrays and plain values."""
    if isinstance(value, (list, tuple)):
        return [len(value)] + [x for v in value for x in flat(v)]
    return [value]


def same(obs, got, want, what):
    got, want = flat(got), flat(want)
    obs.check(len(got) == len(want), "{}: {} instead of {}", what, got, want)
    for g, w in zip(got, want):
        if isinstance(w, (np.ndarray, float, complex, np.number)) and not isinstance(w, np.timedelta64):
            obs.check(not (g is None or isinstance(g, str)), "{}: {} instead of {}", what, g, w)
            obs.close(g, w, what, rtol=1e-10, atol=1e-12)
        else:
            obs.check(type(g) is type(w) and g == w, "{}: {} instead of {}", what, g, w)


def outcome(fn, kw):
    try:
        value, out, err, warned = listen(lambda: fn(kw))
    except Exception as exc:
        return ("raised", type(exc).__name__), "", None, []
    return value, out, err, warned


def defaults(case, obs):
    """Options left out against the same options given."""
    fn, known, alts = ENTRIES[case["name"]]
    context = {case["alt"]: alts[case["alt"]]} if case["alt"] else {}
    explicit = {**known, **context}
    left = [o for o in case["left"] if o not in context]
    given = {k: v for k, v in explicit.items() if k not in left}
    want = outcome(fn, explicit)
    got = outcome(fn, given)
    what = f"{case['name']} without {', '.join(left)}"
    same(obs, got[0], want[0], what)
    obs.check(got[1] == want[1], "{}: printed {!r} instead of {!r}", what, got[1], want[1])
    obs.check(got[2] == want[2] and got[3] == want[3], "{}: {} {} instead of {} {}", what, got[2], got[3], want[2], want[3])
    obs.state(case["name"], tuple(sorted(left)), case["alt"])
    obs.outcome(case["name"], str(flat(got[0]))[:200])


def subsets(names, full):
    names = list(names)
    if len(names) <= full:
        sizes = range(1, len(names) + 1)
    else:
        sizes = (1, 2, len(names) - 1, len(names))
    for size in sizes:
        yield from itertools.combinations(names, size)


def run(ctx):
    cases = []
    for name, (_, known, alts) in ENTRIES.items():
        for alt in [None, *alts]:
            cases += [dict(name=name, left=list(left), alt=alt)
                      for left in subsets(known, ctx.pick(4, 9)) if alt is None or len(left) == 1 or ctx.thorough]
    ctx.explore("options left out", cases, defaults, timeout=60)
