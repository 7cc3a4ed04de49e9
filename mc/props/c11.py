"""C11: solvers do not disturb their inputs, their operators or each other."""

import itertools

import numpy as np

from modopt.opt import algorithms, gradient, linear, proximity
from modopt.opt.algorithms import Condat, ForwardBackward, GenForwardBackward, POGM

from ..common import Recorder, data, matrix
from ..solvers import ALL, DESCENT, VARIABLES, World, make


class BufferGrad:
    """Gradient operator that writes every gradient into the same array."""

    def __init__(self, world):
        self.world = world
        self.grad = np.zeros(world.shape, world.dtype)

    def get_grad(self, x):
        self.grad[...] = self.world.gradient(x)

    def cost(self, *args, **kwargs):
        return 0.0


class ConstantGrad:
    """Gradient operator of a linear function: one fixed array."""

    def __init__(self, world):
        self.grad = data(world.shape, 7, world.dtype) * 0.1
        self.kept = self.grad.copy()

    def get_grad(self, x):
        pass

    def cost(self, *args, **kwargs):
        return 0.0


class FreshConstant(ConstantGrad):
    def get_grad(self, x):
        self.grad = self.kept.copy()


class Buffer:
    """An array that is handed out again and again."""

    def __init__(self):
        self.array = None

    def __call__(self, values):
        if self.array is None:
            self.array = np.array(values)
        self.array[...] = values
        return self.array


class SameProx:
    """Proximity operator that returns its argument."""

    def __init__(self, alias):
        self.alias = alias

    def op(self, x, extra_factor=1.0):
        return x if self.alias else x.copy()

    def cost(self, *args, **kwargs):
        return 0.0


class BufferProx:
    """Proximity operator that returns every result in the same array."""

    def __init__(self, prox):
        self.prox, self.out = prox, Buffer()

    def op(self, x, extra_factor=1.0):
        return self.out(self.prox.op(x, extra_factor=extra_factor))

    def cost(self, *args, **kwargs):
        return 0.0


class SameLinear:
    def __init__(self, alias):
        self.alias = alias

    def op(self, x):
        return x if self.alias else x.copy()

    adj_op = op


class BufferLinear:
    def __init__(self, lin):
        self.lin, self.out, self.back = lin, Buffer(), Buffer()

    def op(self, x):
        return self.out(self.lin.op(x))

    def adj_op(self, x):
        return self.back(self.lin.adj_op(x))


def trace(kind, world, plan, grad, prox, prox2, lin, x0=None, period=1, lin2=None, optimisers=None,
          **kwargs):
    rec = Recorder(*VARIABLES[kind], "idx")
    algo = make(kind, world, x0=x0, grad=grad, prox=prox, prox2=prox2, linear=lin, linear2=lin2,
                optimisers=optimisers, metrics=rec.metrics(), metric_call_period=period, **kwargs)
    for count in plan:
        algo.iterate(max_iter=count)
    return rec.rows, algo


def same(obs, rows, wanted, kind, what, skip=()):
    obs.check(len(rows) == len(wanted), "{} iterations instead of {}", len(rows), len(wanted))
    for k, (row, want) in enumerate(zip(rows, wanted)):
        for name in VARIABLES[kind]:
            if name not in skip:
                obs.close(row[name], want[name], f"{what}: {name} of iteration {k}", rtol=1e-10,
                          atol=1e-12)
        obs.state(kind, k, row[VARIABLES[kind][0]])


def aliasing(case, obs):
    """Operators may hand out their argument or an array they keep."""
    kind, plan = case["kind"], case["plan"]
    world = World(case["shape"], case["dtype"])
    if case["grad"] == "constant":
        grads = ConstantGrad(world), FreshConstant(world)
    elif case["grad"] == "buffer":
        grads = BufferGrad(world), world.grad()
    else:
        grads = world.grad(), world.grad()
    solve = [lambda init, obs: 0.5 * init - 0.25 * obs, lambda init, obs: 0.4 * init + 0.2 * obs]
    solvers = solve, solve
    if case["prox"] == "same":
        proxes, seconds = (SameProx(True), SameProx(False)), (SameProx(True), SameProx(False))
        solvers = ([lambda init, obs: init, lambda init, obs: obs],
                   [lambda init, obs: init.copy(), lambda init, obs: obs.copy()])
    elif case["prox"] == "buffer":
        proxes = BufferProx(world.prox()), world.prox()
        seconds = BufferProx(world.prox(0.3)), world.prox(0.3)
        outs = Buffer(), Buffer()
        solvers = [lambda init, obs, s=s, o=o: o(s(init, obs)) for s, o in zip(solve, outs)], solve
    else:
        proxes, seconds = (world.prox(), world.prox()), (world.prox(0.3), world.prox(0.3))
    second_lin = None
    if case["linear"] == "same":
        linears = SameLinear(True), SameLinear(False)
    elif case["linear"] == "buffer":
        linears, second_lin = (BufferLinear(world.linear()), world.linear()), BufferLinear(world.linear())
    else:
        linears = world.linear(), world.linear()
    x0 = world.x0.copy()
    before = x0.copy()
    x0.flags.writeable = not case["frozen"]
    kwargs = {"epoch_size": case["epoch"]} if case["epoch"] > 1 else {}
    rows, algo = trace(kind, world, plan, grads[0], proxes[0], seconds[0], linears[0], x0,
                       lin2=second_lin, optimisers=solvers[0], **kwargs)
    wanted, ref = trace(kind, world, plan, grads[1], proxes[1], seconds[1], linears[1],
                        optimisers=solvers[1], **kwargs)
    same(obs, rows, wanted, kind, "operators that share arrays")
    obs.close(algo.x_final, ref.x_final, "x_final", rtol=1e-10, atol=1e-12)
    obs.exact(x0, before, "the initial guess was modified")
    if case["grad"] == "constant":
        obs.exact(grads[0].grad, grads[0].kept, "the array of the gradient operator was modified")
    obs.outcome(kind, case["grad"], algo.x_final)


def interleave(case, obs):
    """Two solvers sharing their operators, run in every order."""
    world = World((3,))
    grad, prox, prox2, lin = world.grad(), world.prox(), world.prox(0.3), world.linear()
    solo = []
    for kind in case["kinds"]:
        solo.append([])
        extra = {"epoch_size": 2} if kind in DESCENT and case["epoch"] else {}
        rec = Recorder(*VARIABLES[kind], "idx")
        algo = make(kind, world, metrics=rec.metrics(), metric_call_period=1, **extra)
        for count in case["steps"]:
            algo.iterate(max_iter=count)
            solo[-1].append(np.array(algo.x_final))
        solo[-1] = (solo[-1], rec.rows)
    recs, algos, held = [], [], []
    for kind in case["kinds"]:
        rec = Recorder(*VARIABLES[kind], "idx")
        recs.append(rec)
        extra = {"epoch_size": 2} if kind in DESCENT and case["epoch"] else {}
        algos.append(make(kind, world, grad=grad, prox=prox, prox2=prox2, linear=lin,
                          metrics=rec.metrics(), metric_call_period=1, **extra))
    at = [0, 0]
    for who in case["order"]:
        algos[who].iterate(max_iter=case["steps"][at[who]])
        obs.close(algos[who].x_final, solo[who][0][at[who]], "x_final of an interleaved run",
                  rtol=1e-10, atol=1e-12)
        held.append((algos[who].x_final, np.array(algos[who].x_final)))
        at[who] += 1
        obs.state(case["kinds"], at)
    for who, kind in enumerate(case["kinds"]):
        same(obs, recs[who].rows, solo[who][1], kind, "interleaved run")
    for ref, copy in held:
        obs.exact(ref, copy, "a result handed out earlier changed")
    obs.outcome(case["order"])


def real_operators(case, obs):
    """ModOpt's own operators: nothing they were built from is modified, runs repeat exactly."""
    shape = (2, 3)
    dtype = np.dtype(case["dtype"])
    y = data(shape, 5, dtype)
    mat = matrix(6, 6, 2, dtype, 1.0)
    weights = np.abs(data(shape, 9, float)) * 0.1
    x0 = data(shape, 2, dtype)
    y0 = data(shape, 3, dtype)
    kept = [a.copy() for a in (y, mat, weights, x0, y0)]

    def build():
        grad = gradient.GradBasic(y, lambda x: (mat @ x.ravel()).reshape(shape),
                                  lambda x: (mat.conj().T @ x.ravel()).reshape(shape),
                                  input_data_writeable=case["write"], verbose=False)
        lin = linear.Identity()
        prox = {
            "id": proximity.IdentityProx, "positive": proximity.Positivity,
            "soft": lambda: proximity.SparseThreshold(lin, weights, thresh_type="soft"),
            "ridge": lambda: proximity.Ridge(lin, weights),
            "elastic": lambda: proximity.ElasticNet(lin, weights, weights),
            "lowrank": lambda: proximity.LowRankMatrix(0.2, thresh_type="soft"),
        }[case["prox"]]()
        kind = case["kind"]
        common = dict(auto_iterate=False, progress=False, cost=None)
        if kind == "fb":
            return ForwardBackward(x0, grad, prox, beta_param=0.5, linear=lin, **common)
        if kind == "genfb":
            return GenForwardBackward(x0, grad, [prox, proximity.IdentityProx()], gamma_param=0.5,
                                      linear=lin, **common)
        if kind == "pogm":
            return POGM(x0, x0, x0, x0, grad, prox, beta_param=0.5, linear=lin, **common)
        if kind == "condat":
            return Condat(x0, y0, grad, proximity.IdentityProx(), prox, linear=lin, rho=0.8,
                          sigma=0.5, tau=0.4, **common)
        return DESCENT[kind](x0, grad, prox, None, eta=0.3, epsilon=1.0, progress=False)

    results = []
    for _ in range(2):
        algo = build()
        for count in case["plan"]:
            algo.iterate(max_iter=count)
        results.append(np.array(algo.x_final))
        obs.state(case["kind"], case["prox"], results[-1])
    obs.exact(results[1], results[0], "a second identical run")
    for arr, keep, what in zip((y, mat, weights, x0, y0), kept,
                               ("observed data", "matrix", "weights", "initial guess",
                                "initial dual guess")):
        obs.exact(arr, keep, f"{what} modified")
    obs.outcome(case["kind"], case["prox"])


def handed_out(case, obs):
    """Results, starting values and the solver's own state are distinct arrays.

    A caller that changes results in place changes none of the arrays it passed in, and one that
    reuses the arrays of the starting values does not change the run.
    """
    results = []
    for reuse in (False, True):
        results.append(hand_out(case, obs, reuse))
    for first, second in zip(*results):
        obs.close(second, first, "result of a solver whose starting arrays were reused",
                  rtol=1e-10, atol=1e-12)


def hand_out(case, obs, reuse):
    kind, world = case["kind"], World(case["shape"], case["dtype"])
    results = []
    x0, y0 = world.x0.copy(), data(case["shape"], 3, case["dtype"])
    mult, b, const = (data(case["shape"], s, case["dtype"]) for s in (4, 6, 8))
    given = {"first guess": x0, "second guess": y0, "multipliers": mult, "constraint": b,
             "constant of an operator": const}
    kept = {k: v.copy() for k, v in given.items()}
    extra = dict(metric_call_period=None, progress=False)
    if kind in ("admm", "fast-admm"):
        cls = algorithms.ADMM if kind == "admm" else algorithms.FastADMM
        lin = SameLinear(case["alias"])
        algo = cls(x0, y0, mult, lin, lin, b,
                   (lambda init, obs: 0.5 * init - obs, lambda init, obs: init + obs), **extra)
    elif kind == "condat":
        algo = Condat(x0, y0, world.grad(), world.prox(), world.prox(0.3),
                      linear=SameLinear(case["alias"]), cost=None, auto_iterate=False, **extra)
    elif kind == "pogm":
        algo = POGM(x0, y0, mult, b, world.grad(), world.prox(), cost=None, auto_iterate=False,
                    linear=SameLinear(case["alias"]), **extra)
    else:
        algo = make(kind, world, x0=x0, linear=SameLinear(case["alias"]))
    if reuse:
        for what in ("first guess", "second guess", "multipliers"):
            given[what][...] = -17
            kept[what][...] = -17
        if kind == "pogm":
            b[...] = kept["constraint"][...] = -17
    for count in case["plan"]:
        algo.iterate(max_iter=count)
        outs = [getattr(algo, n) for n in ("x_final", "y_final", "z_final", "u_final", "v_final")
                if isinstance(getattr(algo, n, None), np.ndarray)]
        results += [out.copy() for out in outs]
        if case["write"]:
            for out in outs:
                out += 5
        for what, arr in given.items():
            obs.exact(arr, kept[what], f"{what} changed through a result")
        obs.state(kind, case["plan"], count, *outs)
    obs.outcome(kind, len(outs))
    return results


def run(ctx):
    cases = [
        dict(kind=k, plan=p, shape=s, dtype=d, alias=a, write=w)
        for k in ALL for p in ([0], [1], [0, 0, 2], [2, 0, 1]) for s in ((3,), (2, 2))
        for w in (False, True)
        for d in ("float64", "complex128") for a in (False, True)
        # the other solvers need at least one iteration
        if k in (*DESCENT, "admm", "fast-admm") or 0 not in p
    ]
    ctx.explore("results changed by the caller", cases, handed_out)
    cases = [
        dict(kind=k, plan=p, shape=s, dtype=d, grad=g, prox=x, linear=lin, frozen=f, epoch=e)
        for k in ALL for p in ([6], [2, 3], [1, 1, 1, 1]) for s in ((3,), (2, 2))
        for d in ("float64", "complex128") for g in ("fresh", "buffer", "constant")
        for x in ("fresh", "same", "buffer") for lin in ("fresh", "same", "buffer")
        for f in (False, True) for e in ((1, 2, 3) if k in DESCENT else (1,))
    ]
    ctx.explore("operators that share their arrays", cases, aliasing)
    n = ctx.pick(3, 4)
    orders = sorted(set(itertools.permutations([0] * n + [1] * n)))
    cases = [
        dict(kinds=[a, b], order=list(o), steps=s, epoch=e) for a, b in itertools.product(ALL, repeat=2)
        for o in orders for s in ([1, 2, 1, 3][:n],)
        for e in ((False, True) if a in DESCENT or b in DESCENT else (False,))
    ]
    ctx.explore("all interleavings of two solvers", cases, interleave)
    cases = [
        dict(kind=k, prox=x, dtype=d, plan=p, write=w)
        for k in ["fb", "genfb", "pogm", "condat", *DESCENT]
        for x in ("id", "positive", "soft", "ridge", "elastic", "lowrank")
        for d in ("float64", "complex128") for p in ([7], [3, 4]) for w in (False, True)
        if not (d == "complex128" and x == "positive")
        # element-wise steps make no sense for a spectral operator
        and not (x == "lowrank" and k in ("ada", "rmsprop", "adam", "saga"))
    ]
    ctx.explore("ModOpt operators", cases, real_operators)
