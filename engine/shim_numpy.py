"""numpy as seen by the verified modules: real numpy on object arrays of
symbolic scalars."""
import builtins
import math
import types
import numpy as np
from . import sym
from .sym import Sc, F, Unsupported, to_f, f_and, f_or

NP = types.ModuleType("numpy")


def _obj(a):
    """object array with Sc elements (bools stay)"""
    from . import shim_torch as st
    if isinstance(a, st.Tensor):
        if a._rg:
            raise RuntimeError("Can't call numpy() on Tensor that requires "
                               "grad.")
        return a.a
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a
        if a.dtype == np.bool_ or np.issubdtype(a.dtype, np.integer):
            return a
        return st._map(Sc.of, a.astype(object))
    if isinstance(a, (list, tuple, range)):
        leaves = []

        def walk(x):
            if isinstance(x, (list, tuple, range)):
                for e in x:
                    walk(e)
            elif isinstance(x, (np.ndarray, st.Tensor)):
                arr = x.a if isinstance(x, st.Tensor) else x
                leaves.extend(arr.reshape(-1).tolist()
                              if arr.dtype != object else
                              list(arr.reshape(-1)))
            else:
                leaves.append(x)

        walk(a)
        if leaves and all(isinstance(x, (bool, np.bool_)) for x in leaves):
            return np.array([_obj(x) if isinstance(
                x, (list, tuple)) else x for x in a])
        if leaves and all(isinstance(x, (int, np.integer)) and
                          not isinstance(x, bool) for x in leaves):
            return np.array(a)
        r = st._nested(a)
        return st._map(lambda e: e if isinstance(e, F) else Sc.of(e), r) \
            if r.size else r
    return st._o(Sc.of(a) if not isinstance(a, F) else a)


def array(a, dtype=None, copy=True):
    r = _obj(a)
    if dtype is not None and _isfloat(dtype) and r.dtype != object:
        from . import shim_torch as st
        r = st._map(Sc.of, r.astype(object))
    return r.copy()


def _isfloat(d):
    return getattr(d, "_sym_float", False) or d in (
        float, np.float64, np.float32, "float64") or d == np.dtype(
            "float64")


def _fac(v):

    def f(shape, dtype=None, *k):
        # arrays of bytes hold what the contracts call pixel values: whole
        # numbers from 0 to 255 (a precondition there)
        if dtype is not None and not _isfloat(dtype) and \
                dtype is not np.uint8:
            return np.full(shape, v, dtype=dtype)
        r = np.empty(shape, dtype=object)
        r[...] = Sc.of(v)
        return r

    return f


def empty(shape, dtype=None):
    from . import shim_torch as st
    if dtype is not None and not _isfloat(dtype):
        return np.empty(shape, dtype=dtype)
    s = shape if isinstance(shape, (tuple, list)) else (shape, )
    return st.empty(*s, dtype=st.float64).a


def full(shape, v, dtype=None):
    r = np.empty(shape, dtype=object)
    r[...] = Sc.of(v)
    return r


def eye(n, m=None, dtype=None):
    from . import shim_torch as st
    return st.eye(n, m, dtype=st.float64).a


identity = eye


def _u(name):

    def f(x, out=None):
        from . import shim_torch as st
        if out is not None:
            out[...] = f(x)
            return out
        if isinstance(x, (int, float, np.number)):
            return getattr(np, {"_abs": "abs"}.get(name, name))(x)
        if isinstance(x, Sc):
            return getattr(x, name)()
        x = _obj(x)
        if x.dtype != object:
            return getattr(np, name)(x)
        r = st._map(lambda e: getattr(Sc.of(e), name)(), x)
        return r if r.ndim else r[()]

    return f


def _ab(f, npf):

    def g(x, y, out=None):
        from . import shim_torch as st
        if out is not None:
            out[...] = g(x, y)
            return out
        if all(isinstance(v, (int, float, np.number)) for v in (x, y)):
            return npf(x, y)
        r = st._bin(f, _obj(x), _obj(y))
        return r if r.ndim else r[()]

    return g


def _abs(x):
    if isinstance(x, (int, float, np.number)):
        return builtins.abs(x)
    if isinstance(x, Sc):
        return builtins.abs(x)
    from . import shim_torch as st
    x = _obj(x)
    r = st._map(lambda e: builtins.abs(Sc.of(e)), x)
    return r if r.ndim else r[()]


def _fl(x):
    if isinstance(x, (F, bool, np.bool_)):
        return [x]
    x = _obj(x)
    return list(x.reshape(-1))


def all_(x, axis=None):
    if axis is not None:
        raise Unsupported("np.all axis")
    return f_and([to_f(e) if not isinstance(e, (bool, np.bool_)) else
                  (sym.TRUE if e else sym.FALSE) for e in _fl(x)])


def any_(x, axis=None):
    if axis is not None:
        raise Unsupported("np.any axis")
    return f_or([to_f(e) if not isinstance(e, (bool, np.bool_)) else
                 (sym.TRUE if e else sym.FALSE) for e in _fl(x)])


def _tf(e):
    if isinstance(e, (bool, np.bool_)):
        return sym.TRUE if e else sym.FALSE
    return to_f(e)


def _map1(f, x):
    from . import shim_torch as st
    if isinstance(x, (F, bool, np.bool_)):
        return f(x)
    r = st._map(f, _obj(x))
    return r if r.ndim else r[()]


def _logic(f):

    def g(x, y):
        from . import shim_torch as st
        if not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray):
            return f(x, y)
        r = st._bin(f, np.asarray(x, dtype=object),
                    np.asarray(y, dtype=object))
        return r if r.ndim else r[()]

    return g


def clip(x, lo, up, out=None):
    return minimum(maximum(x, lo), up, out)


maximum = _ab(sym.smax, np.maximum)
minimum = _ab(sym.smin, np.minimum)


def _redu(f, npf):

    def g(x, axis=None):
        x2 = _obj(x)
        if x2.dtype != object:
            return npf(x2, axis=axis)
        if axis is not None:
            m = np.moveaxis(x2, axis, 0)
            r = m[0]
            from . import shim_torch as st
            for i in range(1, m.shape[0]):
                r = st._bin(f, st._o(r), st._o(m[i]))
            return r
        l = list(x2.reshape(-1))
        r = Sc.of(l[0])
        for e in l[1:]:
            r = f(r, e)
        return r

    return g


def sum_(x, axis=None, keepdims=False):
    x = _obj(x)
    if x.dtype == object and x.size and axis is None and all(
            isinstance(e, (F, bool, np.bool_)) for e in x.reshape(-1)):
        return np.int64(builtins.sum(bool(e) for e in x.reshape(-1)))
    return np.sum(x, axis=axis, keepdims=keepdims) if x.size else (
        Sc.of(0) if axis is None else np.sum(x, axis=axis))


def allclose(x, y, rtol=1e-5, atol=1e-8):
    from . import shim_torch as st
    X, Y = _obj(x), _obj(y)
    return all_(st._bin(lambda a, b: builtins.abs(Sc.of(a) - b) <=
                        builtins.abs(Sc.of(b)) * rtol + atol, X, Y))


def isclose(x, y, rtol=1e-5, atol=1e-8):
    return builtins.abs(Sc.of(x) - y) <= builtins.abs(Sc.of(y)) * rtol + atol


def _isinf(x):
    if isinstance(x, (int, float)):
        return np.isinf(x)
    if isinstance(x, Sc):
        return x.sp in ("inf", "-inf")
    return np.array([Sc.of(e).sp in ("inf", "-inf")
                     for e in _fl(x)]).reshape(_obj(x).shape)


def _isnan(x):
    if isinstance(x, (int, float)):
        return np.isnan(x)
    if isinstance(x, Sc):
        return x.sp == "nan"
    return np.array([Sc.of(e).sp == "nan"
                     for e in _fl(x)]).reshape(_obj(x).shape)


def linspace(a, b, n=50):
    from . import shim_torch as st
    a, b = [x.detach()._one() if hasattr(x, "_is_tensor") else x
            for x in (a, b)]
    if hasattr(n, "_is_tensor"):
        n = n.__index__()
    return st.linspace(a, b, n, dtype=st.float64).a


def _wrapobj(f):

    def g(x, *a, **k):
        return f(_obj(x), *a, **k)

    return g


def _wraplist(f):

    def g(xs, *a, **k):
        return f([_obj(x) for x in xs], *a, **k)

    return g


def norm(x, ord=None, axis=None):
    from . import shim_torch as st
    t = st.Tensor(_obj(x), st.float64)
    r = st.norm(t, 2 if ord is None else ord, axis)
    return r.a if r.a.ndim else r.a[()]


def inv(x):
    from . import shim_torch as st
    return st.inverse(st.Tensor(_obj(x), st.float64)).a


def solve(A, b):
    from . import shim_torch as st
    return st._solve(st.Tensor(_obj(A), st.float64),
                     st.Tensor(_obj(b), st.float64)).a


def det(A):
    from . import shim_torch as st
    return st._det(_obj(A))


def arctan2(y, x):
    return sym.uf("arctan2", y, x)


def install():
    N = NP.__dict__
    for k in ("ndarray", "float64", "float32", "int64", "int32", "bool_",
              "dtype", "pi", "number", "newaxis", "integer", "floating",
              "ndindex", "squeeze", "moveaxis", "issubdtype", "uint8",
              "set_printoptions", "prod", "nan", "inf"):
        N[k] = getattr(np, k)
    N["array"] = array
    N["asarray"] = lambda a, dtype=None: _obj(a)
    N["zeros"], N["ones"] = _fac(0), _fac(1)
    N["zeros_like"] = lambda x, dtype=None: _fac(0)(_obj(x).shape)
    N["ones_like"] = lambda x, dtype=None: _fac(1)(_obj(x).shape)
    N["full"], N["empty"], N["eye"], N["identity"] = full, empty, eye, eye
    N["empty_like"] = lambda x: empty(_obj(x).shape)
    for n in ("sin", "cos", "tan", "sqrt", "exp", "log", "sign", "arctan",
              "tanh"):
        N[n] = _u(n)
    N["abs"] = N["absolute"] = N["fabs"] = _abs
    N["arctan2"] = arctan2
    N["maximum"], N["minimum"], N["clip"] = maximum, minimum, clip
    N["logical_or"] = _logic(lambda x, y: f_or([_tf(x), _tf(y)]))
    N["logical_and"] = _logic(lambda x, y: f_and([_tf(x), _tf(y)]))
    N["logical_not"] = lambda x: _map1(lambda e: _tf(e).neg(), x)
    N["max"] = N["amax"] = _redu(sym.smax, np.max)
    N["min"] = N["amin"] = _redu(sym.smin, np.min)
    N["sum"] = sum_
    N["all"], N["any"] = all_, any_
    N["allclose"], N["isclose"] = allclose, isclose
    N["isinf"], N["isnan"] = _isinf, _isnan
    N["linspace"] = linspace
    N["arange"] = np.arange
    N["meshgrid"] = np.meshgrid
    N["mean"] = lambda x, axis=None: sum_(x, axis) / (
        _obj(x).size if axis is None else _obj(x).shape[axis])
    for n in ("reshape", "transpose", "diag", "copy", "repeat", "tile",
              "flatnonzero", "expand_dims", "atleast_1d", "atleast_2d",
              "ravel", "trace", "outer", "triu", "tril"):
        N[n] = _wrapobj(getattr(np, n))
    for n in ("concatenate", "vstack", "hstack", "stack", "column_stack"):
        N[n] = _wraplist(getattr(np, n))
    N["dot"] = lambda a, b: np.dot(_obj(a), _obj(b))
    N["matmul"] = lambda a, b: _obj(a) @ _obj(b)
    N["cross"] = _cross
    N["square"] = lambda x: x * x
    N["power"] = lambda x, k: x**k
    N["where"] = np.where
    for n in ("ceil", "floor"):
        N[n] = _num_only(n)
    N["argwhere"] = lambda x: np.argwhere(_obj(x) != 0)
    N["nonzero"] = lambda x: np.nonzero(_bools(x))
    N["size"] = lambda x: _obj(x).size
    N["random"] = _Unsup("np.random")
    la = types.ModuleType("numpy.linalg")
    la.norm, la.inv, la.solve, la.det = norm, inv, solve, det
    la.cond = lambda M: sym.uf("cond", *np.asarray(
        _obj(M), dtype=object).reshape(-1))
    for k in ("cholesky", "svd"):
        setattr(la, k, _by_contract("numpy.linalg." + k))
    N["linalg"] = la
    NP.__getattr__ = lambda k: _raise(k)


def _bools(x):
    x = _obj(x)
    r = np.empty(x.shape, dtype=bool)
    for i in np.ndindex(*x.shape):
        r[i] = bool(x[i] if isinstance(x[i], (F, bool, np.bool_))
                    else x[i] != 0)
    return r


def _cross(a, b):
    from . import shim_torch as st
    return st.cross(st.Tensor(_obj(a), st.float64),
                    st.Tensor(_obj(b), st.float64)).a


def _num_only(name):

    def f(x):
        if isinstance(x, Sc) and x.is_const():
            x = x.const()
        if isinstance(x, Sc):
            raise Unsupported(f"np.{name} of a symbolic value")
        return np.float64(getattr(math, name)(x))

    return f


def _by_contract(name):

    def f(*a, **k):
        raise Unsupported(name + " without a contract")

    return f


class _Unsup:

    def __init__(self, n):
        self._n = n

    def __getattr__(self, k):
        raise Unsupported(self._n + "." + k)


def _raise(k):
    if k.startswith("__"):
        raise AttributeError(k)
    from .shim_torch import Raiser
    return Raiser("numpy." + k)
