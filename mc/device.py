"""A stand-in for CuPy whose arrays behave like CuPy's.

The arrays know the operations of NumPy but live "on the device": NumPy's own
functions and universal functions dispatch to the device (as CuPy's arrays do
through ``__array_ufunc__`` and ``__array_function__``), a result is always a
device array, and any implicit way to the host or mixture with arrays of the
host is an error, as with CuPy.  ``moved`` records the explicit ways.
"""

import importlib.machinery
import types

import numpy as np

moved = []


def _host(value):
    """The host's version of an argument; arrays of the host are refused."""
    if isinstance(value, Array):
        return value._v
    if isinstance(value, np.ndarray) and value.ndim:
        raise TypeError("Unsupported type <class 'numpy.ndarray'>")
    if isinstance(value, (list, tuple)) and type(value) in (list, tuple):
        return type(value)(_host(v) for v in value)
    if isinstance(value, dict):
        return {k: _host(v) for k, v in value.items()}
    return value


def _dev(value):
    if isinstance(value, (np.ndarray, np.generic)):
        return Array._of(value)
    if isinstance(value, tuple) and hasattr(value, "_fields"):
        return type(value)(*(_dev(v) for v in value))
    if isinstance(value, (tuple, list)):
        return type(value)(_dev(v) for v in value)
    return value


class Array(np.lib.mixins.NDArrayOperatorsMixin):
    """An array on the device."""

    __array_priority__ = 100
    __slots__ = ("_v",)

    @classmethod
    def _of(cls, value):
        new = cls.__new__(cls)
        new._v = value if isinstance(value, np.ndarray) else np.array(value)
        return new

    def __array__(self, *args, **kwargs):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()`.")

    def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
        kwargs = _host(kwargs)
        if out is not None:
            if not all(isinstance(o, Array) for o in out):
                raise TypeError("out must be an array of the device")
            kwargs["out"] = tuple(o._v for o in out)
        result = getattr(ufunc, method)(*_host(args), **kwargs)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return _dev(result)

    def __array_function__(self, func, kinds, args, kwargs):
        return _dev(func(*_host(args), **_host(kwargs)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        found = getattr(self._v, name)
        if callable(found):
            return lambda *a, **k: _dev(found(*_host(a), **_host(k)))
        return _dev(found) if isinstance(found, np.ndarray) else found

    def get(self):
        moved.append(self.shape)
        return self._v.copy()

    def __getitem__(self, key):
        return _dev(self._v[_host(key)])

    def __setitem__(self, key, value):
        self._v[_host(key)] = _host(value)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return (_dev(v) for v in self._v)

    def __float__(self):
        return float(self._v)

    def __int__(self):
        return int(self._v)

    def __complex__(self):
        return complex(self._v)

    def __bool__(self):
        return bool(self._v)

    def __index__(self):
        return self._v.__index__()

    def __repr__(self):
        return repr(self._v)

    def __str__(self):
        return str(self._v)

    def __format__(self, spec):
        return format(self._v, spec)

    __hash__ = None


def upload(value):
    """The explicit way to the device."""
    return Array._of(np.array(value._v if isinstance(value, Array) else value))


class Module(types.ModuleType):
    """``cupy``: NumPy's functions, for arrays of the device only."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        found = getattr(self.__dict__.get("_of", np), name)
        if isinstance(found, types.ModuleType):
            sub = Module(f"cupy.{name}")
            sub._of = found
            return sub
        if isinstance(found, type) or not callable(found):
            return found
        return lambda *a, **k: _dev(found(*_host(a), **_host(k)))


def module():
    mod = Module("cupy")
    mod.__spec__ = importlib.machinery.ModuleSpec("cupy", None)
    mod.__path__ = []
    mod.ndarray = Array
    mod.generic = type("generic", (), {})

    def array(value, dtype=None, copy=True, **_):
        # from the host: explicitly wanted here; lists may hold arrays of the device
        return Array._of(np.array(value if isinstance(value, np.ndarray) else _host(value), dtype=dtype))

    class Generator:
        def __init__(self, seed):
            self._rng = np.random.default_rng(seed)

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            found = getattr(self._rng, name)
            return lambda *a, **k: _dev(found(*_host(a), **_host(k)))

    mod.random = types.ModuleType("cupy.random")
    mod.random.Generator = Generator
    mod.random.default_rng = lambda seed=None: seed if isinstance(seed, Generator) else Generator(seed)
    mod.array = array
    mod.asarray = lambda v, dtype=None: v if isinstance(v, Array) and dtype in (None, v.dtype) else mod.array(v, dtype)
    mod.asnumpy = lambda v: v.get()
    mod.copyto = lambda dst, src: np.copyto(dst._v, _host(src))
    return mod
