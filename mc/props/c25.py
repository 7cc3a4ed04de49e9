"""C25: back end selection and data movement keep values, shapes and types."""

import contextlib
import importlib.abc
import importlib.machinery
import io
import itertools
import sys
import types as pytypes

import numpy as np

from .. import boot
from ..common import data


def module(name, **attrs):
    mod = pytypes.ModuleType(name)
    mod.__spec__ = importlib.machinery.ModuleSpec(name, None)
    mod.__path__ = []
    for key, val in attrs.items():
        setattr(mod, key, val)
    return mod


class Device:
    """Array living on a device: no implicit way back, like a CuPy array."""

    def __init__(self, values):
        if isinstance(values, Device):
            values = values.host
        elif isinstance(values, Eager):
            values = values.numpy()
        self.host = np.array(values)
        self.shape, self.dtype = self.host.shape, self.host.dtype
        self.ndim, self.size = self.host.ndim, self.host.size

    def __array__(self, *args, **kwargs):
        raise TypeError("Implicit conversion to a NumPy array is not allowed.")

    def get(self):
        return self.host.copy()


class Eager:
    """TensorFlow eager tensor: converts implicitly and with numpy()."""

    def __init__(self, values):
        if isinstance(values, Device):
            raise TypeError("Implicit conversion to a NumPy array is not allowed.")
        self._host = np.array(values)
        self.shape, self.dtype = self._host.shape, self._host.dtype

    def __array__(self, dtype=None, copy=None):
        return np.array(self._host, dtype=dtype)

    def numpy(self):
        return self._host.copy()


def fake_cupy():
    return module("cupy", ndarray=Device, array=Device, asarray=Device, copyto=None)


def fake_tf():
    tnp = module("tensorflow.experimental.numpy", ndarray=Eager, array=Eager, asarray=Eager)
    exp = module("tensorflow.experimental", numpy=tnp)
    return module("tensorflow", experimental=exp), exp, tnp


class Broken(importlib.abc.MetaPathFinder):
    """The package can be found but not imported."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.names:
            return importlib.machinery.ModuleSpec(fullname, self)
        return None

    def create_module(self, spec):
        raise ImportError(f"broken {spec.name}")

    def exec_module(self, mod):
        raise ImportError(f"broken {mod.__name__}")


TOUCHED = ["cupy", "tensorflow", "tensorflow.experimental", "tensorflow.experimental.numpy", "torch",
           "torch.utils", "torch.utils.dlpack"]


@contextlib.contextmanager
def world(cupy, tf, torch):
    """A fresh copy of the back end module in a world with these packages."""
    saved = {k: sys.modules.get(k, "absent") for k in TOUCHED}
    broken = Broken(set())
    for key in TOUCHED:
        sys.modules.pop(key, None)
    tnp = cp = None
    if cupy == "present":
        cp = sys.modules["cupy"] = fake_cupy()
    elif cupy == "absent":
        sys.modules["cupy"] = None
    else:
        broken.names.add("cupy")
    if tf == "present":
        root, exp, tnp = fake_tf()
        sys.modules.update({"tensorflow": root, "tensorflow.experimental": exp,
                            "tensorflow.experimental.numpy": tnp})
    elif tf == "absent":
        sys.modules["tensorflow"] = None
    else:
        broken.names.add("tensorflow")
    if torch == "absent":
        sys.modules["torch"] = None
    else:
        tensor = lambda v: ("tensor", np.array(v, dtype="float32"))
        dl = module("torch.utils.dlpack", from_dlpack=lambda c: c, to_dlpack=lambda t: t)
        utils = module("torch.utils", dlpack=dl)
        sys.modules.update({"torch": module("torch", Tensor=tensor, utils=utils), "torch.utils": utils,
                            "torch.utils.dlpack": dl})
    sys.meta_path.insert(0, broken)
    name = "modopt.base.backend"
    path = f"{boot.SRC}/modopt/base/backend.py"
    mod = pytypes.ModuleType(name)
    mod.__file__ = path
    mod.__package__ = "modopt.base"
    try:
        with open(path) as handle:
            exec(compile(handle.read(), path, "exec", dont_inherit=True), mod.__dict__)
        yield mod, {"numpy": np, "cupy": cp, "tensorflow": tnp}
    finally:
        sys.meta_path.remove(broken)
        for key, val in saved.items():
            sys.modules.pop(key, None)
            if not isinstance(val, str):
                sys.modules[key] = val


def host(value):
    if isinstance(value, Device):
        return value.host
    if isinstance(value, Eager):
        return value._host
    return value


def kind(value):
    return "cupy" if isinstance(value, Device) else "tensorflow" if isinstance(value, Eager) else "numpy"


class Listen:
    def __enter__(self):
        self.out = io.StringIO()
        self.ctx = contextlib.redirect_stderr(self.out)
        self.ctx.__enter__()
        return self

    def __exit__(self, *args):
        return self.ctx.__exit__(*args)

    @property
    def text(self):
        return self.out.getvalue()


def select(case, obs):
    with world(case["cupy"], case["tf"], case["torch"]) as (mod, libs):
        for name in ("numpy", "cupy", "tensorflow", "jax", "", "NumPy", None):
            with Listen() as heard:
                xp, used = mod.get_backend(name)
            there = libs.get(name) is not None
            obs.check(used == (name if there else "numpy"), "{}: {} selected, packages {}", name, used, case)
            obs.check(xp is (libs[name] if there else np), "{}: wrong module for packages {}", name, case)
            obs.check(bool(heard.text) == (not there), "{}: warning {!r} for packages {}", name, heard.text, case)
            if not there:
                obs.check(str(name) in heard.text, "warning {!r} does not name {}", heard.text, name)
            obs.state(name, there, used)
        if case["torch"] == "absent":
            for fun in (mod.convert_to_tensor, mod.convert_to_cupy_array):
                obs.raises(ImportError, lambda: fun(np.ones(2)), "conversion without torch")
        else:
            tag, val = mod.convert_to_tensor(np.arange(3.0))
            obs.exact(val, np.arange(3.0), "tensor")
    obs.outcome(case["cupy"], case["tf"], case["torch"])


def _readonly(x):
    x.flags.writeable = False
    return x


class Sub(np.ndarray):
    """A kind of NumPy array."""


LAYOUTS = {
    "plain": lambda x: x,
    "transposed": lambda x: x.T,
    "fortran": np.asfortranarray,
    "strided": lambda x: np.repeat(x, 2, axis=-1)[..., ::2],
    "reversed": lambda x: x[::-1],
    "readonly": _readonly,
    "broadcast": lambda x: np.broadcast_to(x, (2,) + x.shape),
    "swapped": lambda x: x.astype(x.dtype.newbyteorder()),
    "subclass": lambda x: x.view(Sub),
    "masked": lambda x: np.ma.masked_array(x),
}


def walk(case, obs):
    """Every route through the back ends keeps the data."""
    x = data(case["shape"], 3, case["dtype"]) if case["dtype"] != "bool" else data(case["shape"], 3) > 0
    x = LAYOUTS[case.get("layout", "plain")](np.asarray(x))
    keep = x.copy()
    with world(case["cupy"], case["tf"], "absent") as (mod, libs):
        cur, where = x, "numpy"
        for move in case["route"]:
            if move == "cpu":
                new, want = mod.move_to_cpu(cur), "numpy"
            else:
                want = move if libs[move] is not None else "numpy"
                if {where, want} == {"cupy", "tensorflow"} and where == "cupy":
                    return  # no direct way is documented between devices
                with Listen() as heard:
                    new = mod.change_backend(cur) if move == "cupy" and case["default"] else mod.change_backend(cur, move)
                obs.check(bool(heard.text) == (want != move), "route {}: warning {!r}", case["route"], heard.text)
            obs.check(kind(new) == want, "route {}: data ends on {} instead of {}", case["route"], kind(new), want)
            obs.check(mod.get_array_module(new) is libs[want], "route {}: wrong array module", case["route"])
            obs.exact(host(new), keep, f"route {case['route']}: values")
            obs.check(host(new).dtype == keep.dtype, "route {}: type {}", case["route"], host(new).dtype)
            if want == where:
                obs.check(new is cur, "route {}: data already there was copied", case["route"])
            cur, where = new, want
            obs.state(where, host(new))
        obs.exact(x, keep, "input data")
    obs.outcome(case["route"], where)


def foreign(case, obs):
    values = {"list": [1.0], "number": 2.0, "none": None, "array": np.ones(2), "matrix": np.ones((2, 2), "c8"),
              "device": Device([1.0]), "eager": Eager([1.0])}
    with world(case["cupy"], case["tf"], "absent") as (mod, libs):
        for name, val in values.items():
            want = {"device": libs["cupy"], "eager": libs["tensorflow"]}.get(name) or np
            obs.check(mod.get_array_module(val) is want, "array module of {} with {}", name, case)
            obs.state(name, case)


def real_tf(case, obs):
    import tensorflow as tf

    from modopt.base import backend

    tnp = tf.experimental.numpy
    x = data(case["shape"], 2, case["dtype"]) if case["dtype"] != "bool" else data(case["shape"], 2) > 0
    x = np.asarray(x)
    keep = x.copy()
    xp, name = backend.get_backend("tensorflow")
    obs.check(xp is tnp and name == "tensorflow", "TensorFlow back end not selected")
    cur = x
    for move in case["route"]:
        if move == "cpu":
            cur = backend.move_to_cpu(cur)
        else:
            cur = backend.change_backend(cur, move)
        device = move == "tensorflow"
        obs.check(isinstance(cur, tnp.ndarray) == device and isinstance(cur, np.ndarray) != device,
                  "{} ends as {}", case["route"], type(cur))
        obs.check(backend.get_array_module(cur) is (tnp if device else np), "array module")
        got = cur.numpy() if device else cur
        obs.exact(got, keep, f"values after {case['route']}")
        obs.check(np.asarray(got).dtype == keep.dtype, "type after {}", case["route"])
        obs.state(move, got)
    obs.exact(x, keep, "input data")
    obs.outcome(case["route"], case["dtype"])


def real_torch(case, obs):
    import torch

    from modopt.base import backend

    x = data(case["shape"], 2, case["dtype"])
    keep = np.array(x, copy=True)
    tensor = backend.convert_to_tensor(x)
    obs.check(isinstance(tensor, torch.Tensor), "not a tensor: {}", type(tensor))
    obs.check(tuple(tensor.shape) == keep.shape, "shape {}", tuple(tensor.shape))
    obs.close(tensor.numpy(), keep, "tensor values", rtol=1e-6, atol=1e-6)
    back = backend.convert_to_cupy_array(tensor.clone().requires_grad_(case["grad"]))
    obs.check(isinstance(back, np.ndarray), "not an array: {}", type(back))
    obs.exact(back, tensor.detach().numpy(), "array values")
    obs.exact(x, keep, "input data")
    obs.state(case["shape"], back)
    obs.outcome(case["dtype"])


def fallback(case, obs):
    """A solver asked for a missing back end warns and computes with NumPy."""
    from ..solvers import World, make

    wld = World(tuple(case["shape"]), case["dtype"])
    runs = []
    for name in ("numpy", case["name"]):
        with Listen() as heard:
            inst = make(case["kind"], wld, compute_backend=name)
        obs.check((name in heard.text) == (name != "numpy"), "{}: warning {!r}", name, heard.text)
        inst.iterate(max_iter=4)
        runs.append(np.array(inst.u_final if "admm" in case["kind"] else inst.x_final))
        obs.state(name, runs[-1])
    obs.exact(runs[1], runs[0], f"{case['kind']} on the fallback back end")
    obs.outcome(case["kind"])


def power(case, obs):
    from modopt.math.matrix import PowerMethod

    with Listen() as heard:
        got = PowerMethod(lambda x: 3.0 * x, (2, 2), compute_backend=case["name"], rng=1)
    obs.check(bool(heard.text), "no warning for {}", case["name"])
    obs.close(got.spec_rad, 3.0, "spectral radius on the fallback back end")
    obs.state(case["name"])


def run(ctx):
    status = ["present", "absent", "broken"]
    cases = [dict(cupy=c, tf=t, torch=p) for c in status for t in status for p in ("present", "absent")]
    ctx.explore("all sets of installed packages", cases, select)
    depth = ctx.pick(4, 6)
    cases = [dict(cupy=c, tf=t, route=list(r), dtype=d, shape=(2, 3), default=df)
             for c in status for t in status for n in range(1, depth + 1)
             for r in itertools.product(["numpy", "cupy", "tensorflow", "cpu"], repeat=n)
             for d in (("float64", "complex64") if n < 4 else ("float64",)) for df in (False, True)]
    cases += [dict(cupy="present", tf="present", route=r, dtype=d, shape=s, default=False)
              for r in (["cupy", "cpu"], ["cupy", "numpy"], ["tensorflow", "cpu"], ["tensorflow", "numpy"])
              for d in ("float32", "float64", "int32", "int64", "complex64", "complex128", "bool")
              for s in ((), (1,), (0,), (3, 4), (2, 1, 3), (1025,))]
    cases += [dict(cupy=c, tf=t, route=list(r), dtype=d, shape=s, default=False, layout=lay)
              for c in ("present", "absent") for t in ("present", "absent") for n in (1, 2)
              for r in itertools.product(["numpy", "cupy", "tensorflow", "cpu"], repeat=n)
              for d in ("float64", "int32", "complex64") for s in ((3,), (2, 3), (2, 3, 2)) for lay in LAYOUTS]
    ctx.explore("all routes between back ends", cases, walk)
    cases = [dict(cupy=c, tf=t) for c in status for t in status]
    ctx.explore("array modules", cases, foreign)
    from ..solvers import ALL

    cases = [dict(kind=k, name=n, shape=s, dtype=d) for k in ALL for n in ("cupy", "jax")
             for s in ((3,), (2, 2)) for d in ("float64",)]
    ctx.explore("solvers without their back end", cases, fallback)
    ctx.explore("power method without its back end", [dict(name=n) for n in ("cupy", "jax", "")], power)
    cases = [dict(shape=s, dtype=d, grad=g) for s in ((), (1,), (3,), (2, 3), (2, 3, 4), (0,), (257,))
             for d in ("float32", "float64", "int64", "int32") for g in (False, True) if s]
    ctx.explore("PyTorch", cases, real_torch, workers=1)
    cases = [dict(shape=s, dtype=d, route=list(r)) for n in (1, 2, 3)
             for r in itertools.product(["numpy", "tensorflow", "cpu"], repeat=n)
             for s in ((1,), (2, 3), (2, 1, 3)) for d in ("float32", "float64", "int32", "int64", "complex64", "complex128", "bool")]
    ctx.explore("TensorFlow", cases, real_tf, workers=1)
    ctx.assumptions += ["CuPy is not installed: a stand-in with its conversion rules takes its place"]
