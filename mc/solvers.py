"""One factory for every solver of ModOpt, over stub operators."""

import numpy as np

from modopt.opt import algorithms as alg

from .common import Grad, Linear, Prox, data, matrix

DESCENT = {
    "vanilla": alg.VanillaGenericGradOpt,
    "ada": alg.AdaGenericGradOpt,
    "rmsprop": alg.RMSpropGradOpt,
    "momentum": alg.MomentumGradOpt,
    "adam": alg.ADAMGradOpt,
    "saga": alg.SAGAOptGradOpt,
}
WITH_COST = ["fb", "fb-plain", "genfb", "pogm", "condat", *DESCENT]
ADMMS = ["admm", "fast-admm"]
ALL = WITH_COST + ADMMS
AUTO = ["fb", "fb-plain", "genfb", "pogm", "condat"]
VARIABLES = {
    "fb": ("x_new", "z_new"), "fb-plain": ("x_new", "z_new"), "genfb": ("x_new", "z_new"),
    "pogm": ("u_new", "x_new", "y_new", "z_new", "xi", "sigma", "t"),
    "condat": ("x_new", "y_new"),
    "admm": ("x_new", "v_new"), "fast-admm": ("x_new", "v_new"),
    **{k: ("x_new", "dir_grad", "speed_grad") for k in DESCENT},
}


class World:
    """A small least-squares problem and stub operators around it."""

    def __init__(self, shape=(3,), dtype=float):
        self.shape, self.dtype = tuple(shape), np.dtype(dtype)
        size = int(np.prod(shape))
        self.mat = matrix(size, size, seed=size, dtype=dtype, norm=1.0)
        self.target = data(shape, 5, dtype).ravel()
        self.x0 = data(shape, 2, dtype)

    def gradient(self, x):
        flat = self.mat.conj().T @ (self.mat @ np.ravel(x) - self.target)
        return flat.reshape(self.shape).astype(self.dtype)

    def grad(self, cost=None):
        return Grad(self.gradient, cost)

    def prox(self, scale=0.1, cost=None):
        return Prox(lambda x, f: x / (1 + scale * f), cost)

    def linear(self):
        size = int(np.prod(self.shape))
        return Linear(np.eye(size, dtype=self.dtype), self.shape, self.shape)


def make(kind, world, cost=None, auto_iterate=False, x0=None, grad=None, prox=None, prox2=None,
         linear=None, cost_funcs=None, optimisers=None, linear2=None, **kwargs):
    """A solver of the given kind; ``cost`` may be None, ``"auto"`` or an object."""
    x0 = world.x0 if x0 is None else x0
    grad = grad or world.grad()
    prox = prox or world.prox()
    prox2 = prox2 or world.prox(0.3)
    kwargs.setdefault("progress", False)
    if kind == "fb":
        return alg.ForwardBackward(x0, grad, prox, cost=cost, beta_param=0.5,
                                   linear=linear or world.linear(),
                                   auto_iterate=auto_iterate, **kwargs)
    if kind == "fb-plain":
        return alg.ForwardBackward(x0, grad, prox, cost=cost, beta_param=0.5, lambda_update=None,
                                   linear=linear or world.linear(), lambda_param=0.9,
                                   auto_iterate=auto_iterate, **kwargs)
    if kind == "genfb":
        return alg.GenForwardBackward(x0, grad, [prox, prox2], cost=cost, gamma_param=0.5,
                                      linear=linear or world.linear(), auto_iterate=auto_iterate,
                                      **kwargs)
    if kind == "pogm":
        return alg.POGM(x0, x0, x0, x0, grad, prox, cost=cost, beta_param=0.5,
                        linear=linear or world.linear(), auto_iterate=auto_iterate, **kwargs)
    if kind == "condat":
        return alg.Condat(x0, x0, grad, prox, prox2, linear=linear or world.linear(), cost=cost,
                          rho=0.8, sigma=0.5, tau=0.4, auto_iterate=auto_iterate, **kwargs)
    if kind in DESCENT:
        return DESCENT[kind](x0, grad, prox, cost, eta=0.3, epsilon=1.0, **kwargs)
    cls = alg.ADMM if kind == "admm" else alg.FastADMM
    opts = optimisers or (
        lambda init, obs: 0.5 * init - 0.25 * obs, lambda init, obs: 0.4 * init + 0.2 * obs)
    return cls(x0, x0, 0 * x0, linear or world.linear(), linear2 or linear or world.linear(), 0.5 * x0, opts,
               cost_funcs=cost_funcs, **kwargs)


class ScriptedCost:
    """Cost object whose convergence answers are given by a word over 0/1."""

    def __init__(self, word):
        self.word, self.calls = word, 0
        self.cost = 0.0

    def get_cost(self, *args, **kwargs):
        self.calls += 1
        return self.word[min(self.calls, len(self.word)) - 1] == "1"
