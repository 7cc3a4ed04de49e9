"""C18: gradient operators: value, gradient, observed data and their types."""

import itertools

import numpy as np

from modopt.opt.gradient import GradBasic, GradParent
from modopt.opt.linear import MatrixOperator

from ..common import MAGNITUDES, Linear, call_words, calls, data, layout_cases, laid_out, matrix, scaled
from ..core import Pruned


def tols(dtype):
    if np.dtype(dtype) in (np.dtype("float32"), np.dtype("complex64")):
        return dict(rtol=1e-4, atol=1e-3)
    return dict(rtol=1e-9, atol=1e-9)


def evaluate(inst, x, obs, mat, y, shape_in, t, label):
    flat = np.ravel(x)
    res = mat @ flat - np.ravel(y)
    want = (mat.conj().T @ res).reshape(shape_in)
    back = inst.get_grad(x)
    obs.check(back is None or np.allclose(back, want), "get_grad returned something else")
    obs.close(inst.grad, want, f"{label}: gradient", **t)
    cost = 0.5 * np.sum(np.abs(res) ** 2)
    obs.close(inst.cost(x), cost, f"{label}: cost", **t)
    obs.close(inst.cost(x, verbose=False), cost, f"{label}: cost with options", **t)
    obs.close(inst.trans_op_op(x), (mat.conj().T @ (mat @ flat)).reshape(shape_in),
              f"{label}: trans_op_op", **t)
    return want


def small(case, obs):
    """Every small problem, and the gradient is the derivative of the cost."""
    mat = np.array(case["a"], dtype=float)
    m, n = mat.shape
    x, y = np.array(case["x"], dtype=float), np.array(case["y"], dtype=float)
    lin = Linear(mat)
    inst = GradBasic(y.copy(), lin.op, lin.adj_op, verbose=False)
    grad = evaluate(inst, x, obs, mat, y, (n,), tols("float64"), "small")
    for k in range(n):
        h = np.zeros(n)
        h[k] = 0.5
        diff = inst.cost(x + h) - inst.cost(x - h)  # exact for a quadratic
        obs.close(diff, grad[k], "the gradient is not the derivative of the cost", atol=1e-9)
    obs.state(mat, x, y)
    obs.outcome(grad)


def history(case, obs):
    """Any sequence of evaluations, changes of data and of operators."""
    shape_in, shape_out, dtype = tuple(case["in"]), tuple(case["out"]), case["dtype"]
    m, n = int(np.prod(shape_out)), int(np.prod(shape_in))
    t = tols(dtype)
    cur = {"mat": matrix(m, n, 1, dtype), "y": data(shape_out, 2, dtype)}
    lin = Linear(cur["mat"], shape_in, shape_out)
    inst = GradBasic(cur["y"].copy(), lin.op, lin.adj_op, verbose=False)
    grad, x = None, None
    for letter in case["word"]:
        if letter in "mk":
            # the same array again, with other values (m) or not (k): nothing may be kept
            if x is None:
                raise Pruned("no earlier argument")
            if letter == "m":
                x *= 2
                x += 1
            res = cur["mat"] @ np.ravel(x) - np.ravel(cur["y"])
            obs.close(inst.cost(x), 0.5 * np.sum(np.abs(res) ** 2), "cost of the same array", **t)
            if grad is not None:
                obs.close(inst.grad, grad, "a cost evaluation changed the gradient", **t)
            grad = evaluate(inst, x, obs, cur["mat"], cur["y"], shape_in, t, case["word"])
        elif letter in "xz":
            x = data(shape_in, {"x": 5, "z": 6}[letter], dtype)
            x0 = x.copy()
            y0 = np.array(inst.obs_data)
            grad = evaluate(inst, x, obs, cur["mat"], cur["y"], shape_in, t, case["word"])
            obs.exact(x, x0, "argument modified")
            obs.exact(inst.obs_data, y0, "observed data modified")
        elif letter in "yw":
            cur["y"] = data(shape_out, {"y": 7, "w": 8}[letter], dtype)
            inst.obs_data = cur["y"].copy()
            obs.close(inst.obs_data, cur["y"], "observed data after assignment", **t)
        elif letter == "H":
            cur["mat"] = matrix(m, n, 9, dtype)
            lin = Linear(cur["mat"], shape_in, shape_out)
            inst.op = lin.op
            inst.trans_op = lin.adj_op
        elif letter == "c":
            x = data(shape_in, 11, dtype)
            res = cur["mat"] @ np.ravel(x) - np.ravel(cur["y"])
            obs.close(inst.cost(x), 0.5 * np.sum(np.abs(res) ** 2), "cost", **t)
            if grad is not None:
                obs.close(inst.grad, grad, "a cost evaluation changed the gradient", **t)
        obs.state(case["word"][:1], letter, dtype)
    obs.outcome(case["word"])


def images(case, obs):
    shape, dtype = tuple(case["shape"]), case["dtype"]
    t = tols(dtype if np.dtype(dtype).kind in "fc" else "float64")
    s = case["scale"]
    y = data(shape, 4, dtype)
    x = data(shape, 2, dtype)
    if case["layout"] == "fortran":
        x = np.asfortranarray(x)
    elif case["layout"] == "readonly":
        x.flags.writeable = False
    inst = GradBasic(y.copy(), lambda v: s * v, lambda v: s * v, verbose=False)
    x0 = x.copy()
    inst.get_grad(x)
    obs.close(inst.grad, s * (s * x0 - y), "gradient", **t)
    want = 0.5 * np.sum(np.abs(y - s * x0) ** 2)
    obs.close(inst.cost(x), want, "cost", rtol=t["rtol"], atol=t["atol"])
    obs.exact(x, x0, "argument modified")
    obs.state(x[..., :2], s)
    obs.outcome(shape, dtype)


def sharing(case, obs):
    """Operators may return their argument, a view of it or an array they keep."""
    shape, dtype = tuple(case["shape"]), case["dtype"]
    size = int(np.prod(shape))
    kept = {"op": data((size,), 9, dtype), "adj": np.zeros(shape, dtype)}
    fixed = kept["op"].copy()
    if case["op"] == "same":
        op, out, model = (lambda v: v), shape, (lambda v: v)
    elif case["op"] == "view":
        op, out, model = (lambda v: v.reshape(size)), (size,), (lambda v: v.reshape(size).copy())
    elif case["op"] == "part":
        op, out, model = (lambda v: v.reshape(size)[::2]), ((size + 1) // 2,), (lambda v: v.reshape(size)[::2].copy())
    else:  # an affine map returning its constant
        op, out, model = (lambda v: kept["op"]), (size,), (lambda v: fixed.copy())

    def spread(r):
        if r.size == size:
            return r.reshape(shape)
        full = np.zeros(size, dtype)
        full[::2] = r
        return full.reshape(shape)

    def adjoint(r):
        if case["adj"] == "view":
            return spread(r)
        kept["adj"][...] = spread(r)
        return kept["adj"]

    y = data(out, 4, dtype)
    inst = GradBasic(y.copy(), op, adjoint, verbose=False, input_data_writeable=case["write"])
    grads = []
    for letter in case["word"]:
        x = data(shape, {"x": 5, "z": 6}[letter.lower()], dtype)
        x0 = x.copy()
        res = model(x0) - y
        if letter.islower():
            inst.get_grad(x)
            want = spread(res).copy()
            obs.close(inst.grad, want, "gradient", **tols(dtype))
            grads.append((inst.grad, want))
        else:
            obs.close(inst.cost(x), 0.5 * np.sum(np.abs(res) ** 2), "cost", **tols(dtype))
        obs.exact(x, x0, "argument modified")
        obs.exact(inst.obs_data, y, "observed data modified")
        obs.exact(kept["op"], fixed, "array of the operator modified")
        obs.state(case["op"], case["adj"], letter)
    if case["adj"] == "view":
        for got, want in grads:
            obs.close(got, want, "an earlier gradient changed", **tols(dtype))
    obs.outcome(case["op"], case["adj"], case["word"])


def types(case, obs):
    """Data type contract and protection of the observed data."""
    src = data((2, 3), 3, case["dtype"])
    want_float = case["data_type"] in ("float", "floating")
    kw = {}
    if case["data_type"] == "float":
        kw["data_type"] = float
    elif case["data_type"] == "floating":
        kw["data_type"] = np.floating
    elif case["data_type"] == "integer":
        kw["data_type"] = np.integer
    elif case["data_type"] == "complex":
        kw["data_type"] = np.complexfloating
    if case["writeable"] is not None:
        kw["input_data_writeable"] = case["writeable"]
    cls = GradBasic if case["cls"] == "basic" else GradParent
    arg = src.copy()
    kind = np.dtype(case["dtype"]).kind
    bad = (case["data_type"] == "integer" and kind != "i") or (
        case["data_type"] == "complex" and kind != "c")
    make = lambda: cls(arg, lambda v: 2 * v, lambda v: 3 * v, verbose=case["verbose"], **kw)
    if want_float and (kind == "c" or case["dtype"] == "float32"):
        raise Pruned("not specified")
    if bad:
        obs.raises(TypeError, make, "data of the wrong type")
        return
    inst = make()
    obs.close(inst.obs_data, src, "observed data")
    if want_float:
        obs.check(inst.obs_data.dtype.kind == "f", "data of type {} after conversion",
                  inst.obs_data.dtype)
    else:
        obs.check(inst.obs_data.dtype == src.dtype, "data of type {} instead of {}",
                  inst.obs_data.dtype, src.dtype)
    writeable = bool(case["writeable"])
    obs.check(inst.obs_data.flags.writeable == writeable, "writeable is {}",
              inst.obs_data.flags.writeable)
    inst.obs_data = (src + 1).astype(src.dtype)
    obs.close(inst.obs_data, src + 1, "observed data after assignment")
    obs.check(inst.obs_data.flags.writeable == writeable, "writeable is {} after assignment",
              inst.obs_data.flags.writeable)
    inst.grad = np.array([1, 2])
    obs.close(inst.grad, [1, 2], "gradient after assignment")
    if want_float:
        obs.check(inst.grad.dtype.kind == "f", "gradient of type {}", inst.grad.dtype)
    obs.close(inst.trans_op_op(src), 6 * src, "trans_op_op")
    if case["cls"] == "parent":
        inst.get_grad = lambda v: setattr(inst, "grad", v * 7)
        inst.get_grad(np.array([1.0, -2.0]))
        obs.close(inst.grad, [7.0, -14.0], "gradient through a user method")
        inst.cost = lambda *a, **k: 42.0
        obs.check(inst.cost(src) == 42.0, "cost through a user method")
        other = cls(src.copy(), lambda v: v, lambda v: v, get_grad=lambda v: v, cost=lambda v: 5.0,
                    verbose=False)
        obs.check(other.cost(1) == 5.0, "cost given to the constructor")
    for name in ("op", "trans_op", "get_grad", "cost"):
        obs.raises(TypeError, lambda: setattr(inst, name, 3), f"{name} that can not be called")
    for wrong in (3.0, [1.0, 2.0], None, "x"):
        if want_float and isinstance(wrong, list):
            continue
        obs.raises(TypeError, lambda: setattr(inst, "obs_data", wrong), "data that is no array")
    obs.state(case["dtype"], case["data_type"], writeable)
    obs.outcome(inst.obs_data)


def parent(case, obs):
    """Methods given to the constructor, one without the other, and replaced later."""
    shape = (2, 2)
    seen = []
    inst_of = []

    def gradient(tag):
        def fn(x):
            seen.append(tag)
            inst_of[0].grad = tag * x
        return fn

    def cost(tag):
        def fn(*args, **kwargs):
            return tag * float(np.sum(args[0])) + len(kwargs)
        return fn

    kw, have = {}, {"get_grad": None, "cost": None}
    if case["grad"]:
        kw["get_grad"], have["get_grad"] = gradient(3.0), 3.0
    if case["cost"]:
        kw["cost"], have["cost"] = cost(5.0), 5.0
    y = data(shape, 4, case["dtype"])
    inst = GradParent(y.copy(), lambda v: 2 * v, lambda v: 3 * v, verbose=False, **kw)
    inst_of.append(inst)
    for k, letter in enumerate(case["word"]):
        x = data(shape, 5 + k, case["dtype"])
        if letter == "G":
            inst.get_grad, have["get_grad"] = gradient(7.0 + k), 7.0 + k
        elif letter == "C":
            inst.cost, have["cost"] = cost(-2.0 - k), -2.0 - k
        elif letter == "y":
            y = data(shape, 9 + k, case["dtype"])
            inst.obs_data = y.copy()
        elif letter == "g":
            if have["get_grad"] is None:
                raise Pruned("no method")
            inst.get_grad(x)
            obs.check(seen[-1] == have["get_grad"], "another method was called")
            obs.close(inst.grad, have["get_grad"] * x, "gradient")
        else:
            if have["cost"] is None:
                raise Pruned("no method")
            real = np.abs(x)
            obs.close(inst.cost(real, verbose=False), have["cost"] * float(np.sum(real)) + 1, "cost")
            obs.close(inst.cost(real), have["cost"] * float(np.sum(real)), "cost")
        obs.exact(inst.obs_data, y, "observed data")
        obs.close(inst.trans_op_op(x), 6 * x, "trans_op_op")
        obs.state(have, letter)
    obs.outcome(case["word"], have)


def _grad(dtype, where):
    def make(s):
        mat, y, x = matrix(4, 3, 1, dtype), data((4,), 2, dtype), data((3,), 5, dtype)
        if where == "operator":
            mat, x = mat * s, x / s
        else:
            x, y = x * s, y * s
        lin = Linear(mat)
        inst = GradBasic(y, lin.op, lin.adj_op, verbose=False)
        inst.get_grad(x)
        yield "gradient", inst.grad, 1
        yield "cost", inst.cost(x), 0 if where == "operator" else 2
        yield "trans_op_op", inst.trans_op_op(x), 1
        yield "observed data", inst.obs_data, 0 if where == "operator" else 1
    return make


SCALED = {f"{d} {w}": _grad(d, w) for d in ("float64", "complex128") for w in ("operator", "data")}
SCALED["float32 data"] = _grad("float32", "data")


def _gradient():
    lin = Linear(matrix(4, 3, 1))
    inst = GradBasic(data((4,), 2), lin.op, lin.adj_op, verbose=False)

    def run(x):
        inst.get_grad(x)
        return [inst.grad, inst.cost(x), inst.trans_op_op(x)]

    return run


CALLS = {"gradient": (_gradient, [(3,)])}

def _observed():
    def run(y, x):
        inst = GradBasic(y, lambda v: 2 * v + v[::-1], lambda v: 2 * v + v[::-1], verbose=False)
        inst.get_grad(x)
        first = inst.grad
        inst.obs_data = y
        inst.get_grad(x)
        return [first, inst.grad, inst.cost(x), inst.obs_data]
    return run


LAID = {**CALLS, "observed data": (_observed, [(2, 3), (2, 3)]), "three axes": (_observed, [(2, 3, 2), (2, 3, 2)])}


def run(ctx):
    vals = [0.0, 1.0, -2.0]
    cases = []
    for m, n in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for ent in itertools.product(vals if m * n < 4 or ctx.thorough else vals[:2] + [-2.0], repeat=m * n):
            a = [list(ent[i * n:(i + 1) * n]) for i in range(m)]
            for x in itertools.product([-1.0, 0.5], repeat=n):
                for y in itertools.product([0.0, 3.0], repeat=m):
                    cases.append(dict(a=a, x=list(x), y=list(y)))
    ctx.explore("all small problems", cases, small)
    depth = ctx.pick(4, 6)
    cases = [dict([("in", i), ("out", o), ("dtype", d), ("word", "".join(w))])
             for i, o, d in (((3,), (4,), "float64"), ((2, 2), (3,), "complex128"), ((2, 3), (2, 3), "float32"))
             for k in range(1, depth + 1) for w in itertools.product("xyHcm" if k > 4 else "xzywHcmk", repeat=k)
             if not w[0] in "mk"]
    ctx.explore("all histories", cases, history)
    cases = [dict(shape=s, dtype=d, scale=sc, layout=lay)
             for s in ((1,), (7,), (3, 4), (2, 3, 4), (1, 1), (513,), (64, 65), (2, 3, 2, 2))
             for d in ("float64", "float32", "complex128", "complex64", "int64") for sc in (1.0, -0.5, 2)
             for lay in ("plain", "fortran", "readonly")]
    ctx.explore("shapes and layouts", cases, images)
    cases = [dict(shape=s, dtype=d, op=o, adj=a, write=w, word="".join(word))
             for s in ((4,), (2, 2), (3, 2), (2, 1, 2), (1, 2, 1, 2)) for d in ("float64", "float32", "complex128")
             for o in ("same", "view", "part", "constant") for a in ("view", "buffer") for w in (False, True)
             for word in itertools.product("xzXZ", repeat=ctx.pick(3, 5))]
    ctx.explore("operators that share their arrays", cases, sharing)
    cases = [dict(dtype=d, data_type=t, writeable=w, cls=c, verbose=v)
             for d in ("float64", "float32", "int64", "complex128")
             for t in (None, "float", "floating", "integer", "complex") for w in (None, True, False)
             for c in ("basic", "parent") for v in (True, False)]
    ctx.explore("types and protection", cases, types)
    cases = [dict(grad=g, cost=c, dtype=d, word="".join(w)) for g in (False, True) for c in (False, True)
             for d in ("float64", "complex128")
             for n in range(1, ctx.pick(4, 6)) for w in itertools.product("gcGCy", repeat=n)]
    ctx.explore("methods of the caller", cases, parent)
    ctx.explore("every magnitude", [dict(what=w, scale=s) for w in SCALED for s in MAGNITUDES
                                    if 1e-130 < s < 1e130 and (w != "float32 data" or 1e-18 < s < 1e18)], scaled(SCALED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(LAID, ("float64", "complex128")), laid_out(LAID))
