"""A `torch` with symbolic scalars: same aliasing (views share storage),
shape, dtype-mismatch and reduction rules for the operations the repository
uses; everything else raises Unsupported."""
import builtins
import collections
import itertools
import math
import types
import numpy as np
from . import sym
from .sym import Sc, F, Unsupported, to_f, f_and, f_or, TRUE, FALSE

# ---------------------------------------------------------------- dtypes


class DType:

    def __init__(self, name, cat, rank):
        self.name, self.cat, self.rank = name, cat, rank

    def __repr__(self):
        return "torch." + self.name

    @property
    def is_floating_point(self):
        return self.cat == 2

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


float64 = DType("float64", 2, 3)
float32 = DType("float32", 2, 2)
float16 = DType("float16", 2, 1)
int64 = DType("int64", 1, 3)
int32 = DType("int32", 1, 2)
uint8 = DType("uint8", 1, 0)
bool_ = DType("bool", 0, 0)
double, float_, long = float64, float32, int64
_default_dtype = float32


def set_default_dtype(d):
    global _default_dtype
    _default_dtype = d
    M.__dict__["float"] = float32


def get_default_dtype():
    return _default_dtype


class Size(tuple):

    def numel(self):
        return math.prod(self)


# ---------------------------------------------------------------- helpers


def _o(x):
    """To an object ndarray (0-d for scalars)."""
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _map(f, a):
    r = np.empty(a.shape, dtype=object)
    rf, af = r.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        rf[i] = f(af[i])
    return r if r.shape else _o(rf[0])


def _bin(f, a, b):
    try:
        a2, b2 = np.broadcast_arrays(a, b)
    except ValueError as e:
        raise RuntimeError(f"shape mismatch {a.shape} {b.shape}: {e}")
    r = np.empty(a2.shape, dtype=object)
    it = r.reshape(-1)
    x = [v for v in a2.flat]
    y = [v for v in b2.flat]
    for i in range(len(x)):
        it[i] = f(x[i], y[i])
    if not r.shape:
        return _o(it[0])
    return r


def _cast_el(x, dt, src=None):
    if dt is bool_:
        if isinstance(x, F):
            return x
        if isinstance(x, (bool, np.bool_)):
            return TRUE if x else FALSE
        return sym.f_ne(Sc.of(x).poly())
    s = Sc.of(x)
    if dt.cat == 1:
        if src is not None and src.cat == 2 or src is None:
            if s.sp is not None:
                raise Unsupported("non-finite to int")
            if s.p.is_const():
                return Sc.of(int(math.trunc(s.p.const())))
            if all(sym.get_atom(i).kind == "ind" for i in s.p.atoms()) and \
                    all(c.denominator == 1 for c in s.p.t.values()):
                return s
            raise Unsupported("symbolic float to int conversion")
        return s
    if dt is float32 and src is float64:
        return sym.round32(s)
    return s


def _np_dt(d):
    """numpy / python dtype -> DType"""
    if isinstance(d, DType):
        return d
    if d is None:
        return None
    if d in (builtins.float, ) or getattr(d, "_sym_float", False):
        return float64 if False else _default_dtype
    if d is builtins.int:
        return int64
    if d is builtins.bool:
        return bool_
    raise Unsupported(f"dtype {d}")


def _infer(x):
    """dtype of nested python data."""
    if isinstance(x, Tensor):
        return x.dtype
    if isinstance(x, (bool, np.bool_, F)):
        return bool_
    if isinstance(x, (int, np.integer)):
        return int64
    if isinstance(x, (float, np.floating, Sc)):
        if isinstance(x, Sc) and getattr(x, "isint", False):
            return int64
        return _default_dtype
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return float64
        if x.dtype == np.bool_:
            return bool_
        if x.dtype == np.float32:
            return float32
        if np.issubdtype(x.dtype, np.integer):
            return int64
        return float64
    if isinstance(x, (list, tuple, range)):
        best = None
        for e in x:
            d = _infer(e)
            if best is None or (d.cat, d.rank) > (best.cat, best.rank):
                best = d
        return best or _default_dtype
    raise Unsupported(f"tensor from {type(x)}")


def _nested(x):
    if isinstance(x, Tensor):
        return x.a.copy() if x.a.shape else _o(x.a[()])
    if isinstance(x, np.ndarray):
        return _map(lambda e: e, x.astype(object))
    if isinstance(x, (list, tuple, range)):
        parts = [_nested(e) for e in x]
        if not parts:
            return np.empty((0, ), dtype=object)
        sh = parts[0].shape
        for p in parts:
            if p.shape != sh:
                raise ValueError("ragged nested sequence")
        r = np.empty((len(parts), ) + sh, dtype=object)
        for i, p in enumerate(parts):
            r[i, ...] = p
        return r
    return _o(x)


_uninit = itertools.count()
_grad_enabled = [True]


def promote(d1, d2, z1=False, z2=False):
    """Result dtype; z: 0-dim tensor (does not promote within category)."""
    if d1 is d2:
        return d1
    if d1.cat != d2.cat:
        return d1 if d1.cat > d2.cat else d2
    if z1 and not z2:
        return d2
    if z2 and not z1:
        return d1
    return d1 if d1.rank >= d2.rank else d2


def _conv(a, src, dst):
    if src is dst:
        return a
    return _map(lambda e: _cast_el(e, dst, src), a)


# ---------------------------------------------------------------- tensor


_UNINIT = itertools.count()


class Tensor:
    _is_tensor = True
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, a=(), dtype=None, *more):
        if not isinstance(a, np.ndarray):
            # torch.Tensor(2, 3) or torch.Tensor([..]) : single precision
            if isinstance(a, int):
                sh = (a, ) + ((dtype, ) if dtype is not None else ()) + more
                a = np.full(sh, None, dtype=object)
                for ix in np.ndindex(*sh):
                    a[ix] = sym.var(f"!uninit{next(_UNINIT)}")
            else:
                a = tensor(a, dtype=float32).a
            dtype = float32
        self.a = a
        self.dtype = dtype
        self._rg = False
        self.grad = None
        self._leaf = None

    # -- info
    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        self.requires_grad_(v)

    def requires_grad_(self, v=True):
        if v and not self._rg:
            make_leaf(self)
        if not v and self._rg:
            if self._leaf is None:
                raise RuntimeError("you can only change requires_grad flags "
                                   "of leaf variables.")
            unleaf(self)
        self._rg = bool(v)
        return self

    @property
    def is_leaf(self):
        return (not self._rg) or self._leaf is not None

    @property
    def shape(self):
        return Size(self.a.shape)

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def dim(self):
        return self.a.ndim

    @property
    def ndim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    nelement = numel

    @property
    def device(self):
        return device("cpu")

    @property
    def T(self):
        return Tensor(self.a.T, self.dtype)

    def t(self):
        return Tensor(self.a.T, self.dtype)

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self.a.shape[0]

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        for i in range(self.a.shape[0]):
            yield self[i]

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"tensor({self.a.tolist()}, dtype={self.dtype})"

    def __format__(self, spec):
        return repr(self)

    def is_floating_point(self):
        return self.dtype.cat == 2

    # -- conversion
    def _one(self):
        if self.a.size != 1:
            raise RuntimeError("a Tensor with %d elements cannot be "
                               "converted to Scalar" % self.a.size)
        return self.a.reshape(-1)[0]

    def item(self):
        x = self._one()
        if self.dtype is bool_:
            return x
        if self.dtype.cat == 1:
            return Sc.of(x).const() if Sc.of(x).is_const() else Sc.of(x)
        return frz_sc(Sc.of(x))

    def _as_sc(self):
        return Sc.of(self._one())

    def __bool__(self):
        if self.a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one "
                               "value is ambiguous")
        x = self._one()
        if isinstance(x, F):
            return bool(x)
        return bool(Sc.of(x) != 0)

    def __index__(self):
        return Sc.of(self._one()).__index__()

    def __int__(self):
        return int(Sc.of(self._one()))

    def __float__(self):
        return float(Sc.of(self._one()))

    def tolist(self):
        if self.dtype is bool_:
            return _map(lambda x: bool(x), self.a).tolist()
        if self.dtype.cat == 1:
            return _map(lambda x: Sc.of(x).const()
                        if Sc.of(x).is_const() else x, self.a).tolist()
        return _map(lambda x: frz_sc(Sc.of(x)), self.a).tolist()

    def numpy(self):
        if self._rg:
            raise RuntimeError("Can't call numpy() on Tensor that requires "
                               "grad. Use tensor.detach().numpy() instead.")
        return self.a

    def __array__(self, dtype=None, copy=None):
        return self.a

    def detach(self):
        if any_tracked(self.a):
            return Tensor(_map(lambda x: frz_sc(Sc.of(x)), self.a),
                          self.dtype)
        return Tensor(self.a, self.dtype)

    @property
    def data(self):
        if self._leaf is not None:
            # writes go to the leaf's underlying values
            return LeafData(self)
        return self.detach()

    @data.setter
    def data(self, v):
        self.a = v.a

    def clone(self):
        r = Tensor(self.a.copy(), self.dtype)
        return _res(r, self)

    def copy_(self, o):
        v = _conv(np.broadcast_to(_t(o).a, self.a.shape),
                  _t(o).dtype, self.dtype)
        if self._leaf is not None:
            if _grad_enabled[0]:
                raise RuntimeError("a leaf Variable that requires grad is "
                                   "being used in an in-place operation.")
            _releaf(self, v)
        else:
            self.a[...] = v
        return self

    def contiguous(self):
        return self

    def cpu(self):
        return self

    def to(self, *args, **kw):
        r = self
        for x in list(args) + [kw.get("dtype")]:
            if isinstance(x, DType):
                r = r.type(x)
            elif isinstance(x, Tensor):
                r = r.type(x.dtype)
        return r

    def type(self, dt=None):
        if dt is None:
            return "torch." + self.dtype.name
        dt = _np_dt(dt)
        if dt is self.dtype:
            return self
        return _res(Tensor(_conv(self.a, self.dtype, dt), dt), self)

    def double(self):
        return self.type(float64)

    def float(self):
        return self.type(float32)

    def int(self):
        return self.type(int32)

    def long(self):
        return self.type(int64)

    def bool(self):
        return self.type(bool_)

    def type_as(self, o):
        return self.type(o.dtype)

    def __deepcopy__(self, memo):
        r = Tensor(self.a.copy(), self.dtype)
        if self._rg:
            unleaf_into(self, r)
            r.requires_grad_(True)
        return r

    # -- indexing
    def _idx(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix, )
        out = []
        basic = True
        for i in ix:
            if isinstance(i, Tensor):
                if i.dtype is bool_:
                    m = _map(lambda x: bool(x), i.a)
                    out.append(np.array(m.tolist(), dtype=bool).reshape(
                        m.shape))
                    basic = False
                elif i.a.ndim == 0:
                    out.append(int(Sc.of(i.a[()]).const()))
                else:
                    out.append(np.array([[*map(lambda s: Sc.of(s).const(),
                                               i.a.reshape(-1))]],
                                        dtype=np.int64).reshape(i.a.shape))
                    basic = False
            elif isinstance(i, (list, np.ndarray)):
                arr = np.asarray(i, dtype=object)
                fl = [x for x in arr.reshape(-1)]
                if any(isinstance(x, (F, bool, np.bool_)) for x in fl):
                    out.append(np.array([bool(x) for x in fl],
                                        dtype=bool).reshape(arr.shape))
                else:
                    out.append(np.array(
                        [int(x.const()) if isinstance(x, Sc) else int(x)
                         for x in fl], dtype=np.int64).reshape(arr.shape))
                basic = False
            elif isinstance(i, Sc):
                out.append(i.__index__())
            elif isinstance(i, (bool, np.bool_)):
                raise Unsupported("scalar bool index")
            elif isinstance(i, range):
                out.append(np.array(list(i), dtype=np.int64))
                basic = False
            elif isinstance(i, slice):
                f = lambda v: v.__index__() if v is not None else None
                if i.step is not None and f(i.step) < 0:
                    raise ValueError("step must be greater than zero")
                out.append(slice(f(i.start), f(i.stop), f(i.step)))
            else:
                out.append(i if i is None or i is Ellipsis else
                           i.__index__())
        if basic and Ellipsis not in [x for x in out
                                      if not isinstance(x, np.ndarray)]:
            out.append(Ellipsis)
        return tuple(out), basic

    def __getitem__(self, ix):
        i, basic = self._idx(ix)
        r = self.a[i]
        r = _o(r)
        return _res(Tensor(r, self.dtype), self)

    def __setitem__(self, ix, v):
        if self._leaf is not None and _grad_enabled[0]:
            raise RuntimeError("a view of a leaf Variable that requires grad"
                               " is being used in an in-place operation.")
        i, basic = self._idx(ix)
        if isinstance(v, Tensor):
            va, vd = v.a, v.dtype
        elif isinstance(v, np.ndarray):
            va, vd = v.astype(object), None
        else:
            va, vd = _o(v), None
        va = _map(lambda e: _cast_el(e, self.dtype, vd), va)
        tgt = self.a[i]
        tgt = _o(tgt)
        while va.ndim > tgt.ndim and va.shape[0] == 1:
            va = _o(va[0])
        try:
            va = np.broadcast_to(va, tgt.shape)
        except ValueError:
            raise RuntimeError(f"shape mismatch in assignment: {va.shape} "
                               f"to {tgt.shape}")
        if basic:
            tgt[...] = va
        else:
            self.a[i] = va
        if isinstance(v, Tensor) and v._rg and _grad_enabled[0]:
            self._rg = True

    # -- arithmetic
    def _arith(self, o, f, rev=False):
        if isinstance(o, np.ndarray):
            o = Tensor(o.astype(object), _infer(o))
        if isinstance(o, Tensor):
            dt = promote(self.dtype, o.dtype, self.a.ndim == 0,
                         o.a.ndim == 0)
            a, b = _conv(self.a, self.dtype, dt), _conv(o.a, o.dtype, dt)
            rg = self._rg or o._rg
        elif isinstance(o, (int, float, Sc, F, bool, np.number, np.bool_)):
            dt = self.dtype
            if self.dtype.cat < 2 and isinstance(o, (float, Sc,
                                                     np.floating)):
                dt = _default_dtype
            elif self.dtype.cat < 1:
                dt = int64
            a, b = _conv(self.a, self.dtype, dt), _o(Sc.of(o))
            rg = self._rg
        else:
            return NotImplemented
        if dt is bool_:
            raise Unsupported("arithmetic on bool tensors")
        r = Tensor(_bin(f, b, a) if rev else _bin(f, a, b), dt)
        r._rg = rg and _grad_enabled[0]
        return r

    def __add__(self, o):
        return self._arith(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._arith(o, lambda x, y: x + y, True)

    def __sub__(self, o):
        return self._arith(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._arith(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        return self._arith(o, lambda x, y: x * y)

    def __rmul__(self, o):
        return self._arith(o, lambda x, y: x * y, True)

    def __truediv__(self, o):
        s = self if self.dtype.cat == 2 else self.type(_default_dtype)
        return s._arith(o, lambda x, y: x / y)

    def __rtruediv__(self, o):
        s = self if self.dtype.cat == 2 else self.type(_default_dtype)
        return s._arith(o, lambda x, y: x / y, True)

    def __floordiv__(self, o):
        return self._arith(o, lambda x, y: x // y)

    def __mod__(self, o):
        return self._arith(o, lambda x, y: x % y)

    def __pow__(self, o):
        if isinstance(o, Tensor):
            return self._arith(o, lambda x, y: x**y)
        return _res(Tensor(_map(lambda x: Sc.of(x)**o, self.a),
                           self.dtype), self)

    def __neg__(self):
        return _res(Tensor(_map(lambda x: -Sc.of(x), self.a), self.dtype),
                    self)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.abs()

    def _inplace(self, r):
        if self._leaf is not None and _grad_enabled[0]:
            raise RuntimeError("a leaf Variable that requires grad is being "
                               "used in an in-place operation.")
        if r is NotImplemented:
            return r
        if r.a.shape != self.a.shape:
            raise RuntimeError("output shape does not match in in-place op")
        if self.dtype.cat < r.dtype.cat:
            raise RuntimeError("result type can't be cast")
        self.a[...] = _conv(r.a, r.dtype, self.dtype)
        self._rg = self._rg or r._rg
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def add(self, o, o2=None, alpha=1):
        if o2 is not None:
            return self + o2 * o
        return self + (o * alpha if alpha != 1 else o)

    def sub(self, o):
        return self - o

    def mul(self, o):
        return self * o

    def div(self, o):
        return self / o

    is_sparse = False

    def addcmul_(self, v, a, b=None, value=1):
        if b is None:
            v, a, b = value, v, a
        return self._inplace(self + a * b * v)

    def add_(self, o, o2=None, alpha=1):
        if o2 is not None:
            return self._inplace(self + o2 * o)
        return self._inplace(self + (o * alpha if alpha != 1 else o))

    def sub_(self, o):
        return self._inplace(self - o)

    def mul_(self, o):
        return self._inplace(self * o)

    def div_(self, o):
        return self._inplace(self / o)

    def zero_(self):
        self.a[...] = Sc.of(0)
        return self

    def fill_(self, v):
        self.a[...] = Sc.of(v)
        return self

    # -- comparison
    def _cmp(self, o, f):
        if o is None:
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = Tensor(o.astype(object), _infer(o))
        if isinstance(o, Tensor):
            b = o.a
        elif isinstance(o, (int, float, Sc, F, bool, np.number)):
            b = _o(o)
        else:
            return NotImplemented

        def g(x, y):
            r = f(x, y)
            return r if isinstance(r, F) else (TRUE if r else FALSE)

        return Tensor(_bin(g, self.a, b), bool_)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: Sc.of(x) <= Sc.of(y))

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: Sc.of(x) < Sc.of(y))

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: Sc.of(x) >= Sc.of(y))

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: Sc.of(x) > Sc.of(y))

    def _eqf(x, y):
        if isinstance(x, F) and isinstance(y, (F, bool)):
            return x == y
        return Sc.of(x) == Sc.of(y)

    def __eq__(self, o):
        return self._cmp(o, Tensor._eqf)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: Tensor._eqf(x, y).neg())

    def eq(self, o):
        return self == o

    # -- logic
    def _log(self, o, f):
        o = _t(o)
        if self.dtype is not bool_:
            raise Unsupported("bitwise op on ints")
        return Tensor(_bin(f, self.a, _conv(o.a, o.dtype, bool_)), bool_)

    def __and__(self, o):
        return self._log(o, lambda x, y: f_and([to_f(x), to_f(y)]))

    __rand__ = __and__

    def __or__(self, o):
        return self._log(o, lambda x, y: f_or([to_f(x), to_f(y)]))

    __ror__ = __or__

    def __xor__(self, o):
        return self._log(o, lambda x, y: to_f(x) ^ to_f(y))

    def __invert__(self):
        if self.dtype is not bool_:
            raise Unsupported("bitwise not on ints")
        return Tensor(_map(lambda x: to_f(x).neg(), self.a), bool_)

    logical_not = __invert__

    def logical_and(self, o):
        return self.bool() & o.bool()

    def all(self, dim=None):
        b = _conv(self.a, self.dtype, bool_)
        return _red(Tensor(b, bool_), dim,
                    lambda xs: f_and([to_f(x) for x in xs]))

    def any(self, dim=None):
        b = _conv(self.a, self.dtype, bool_)
        return _red(Tensor(b, bool_), dim,
                    lambda xs: f_or([to_f(x) for x in xs]))

    # -- matmul
    def __matmul__(self, o):
        if not isinstance(o, Tensor):
            return NotImplemented
        return matmul(self, o)

    def matmul(self, o):
        return matmul(self, o)

    mm = matmul

    def dot(self, o):
        if self.a.ndim != 1 or o.a.ndim != 1:
            raise RuntimeError("1D tensors expected")
        return matmul(self, o)

    # -- shape
    def reshape(self, *sh, shape=None):
        if shape is not None:
            sh = shape
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = sh[0]
        sh = tuple(int(s) for s in sh)
        try:
            return _res(Tensor(_o(self.a.reshape(sh)), self.dtype), self)
        except ValueError as e:
            raise RuntimeError(str(e))

    def view(self, *sh):
        return self.reshape(*sh)

    def flatten(self, start_dim=0):
        if start_dim:
            return self.reshape(self.a.shape[:start_dim] + (-1, ))
        return self.reshape(-1)

    def squeeze(self, dim=None):
        if dim is None:
            return _res(Tensor(_o(self.a.squeeze()), self.dtype), self)
        if self.a.ndim == 0 or self.a.shape[dim] != 1:
            return self
        return _res(Tensor(_o(self.a.squeeze(dim)), self.dtype), self)

    def unsqueeze(self, dim):
        if dim < 0:
            dim += self.a.ndim + 1
        return _res(Tensor(np.expand_dims(self.a, dim), self.dtype), self)

    def transpose(self, d0, d1):
        return _res(Tensor(self.a.swapaxes(d0, d1), self.dtype), self)

    def permute(self, *d):
        if len(d) == 1 and isinstance(d[0], (tuple, list)):
            d = d[0]
        return _res(Tensor(self.a.transpose(d), self.dtype), self)

    def expand(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = sh[0]
        n = self.a.ndim
        sh = tuple(self.a.shape[i - (len(sh) - n)] if s == -1 else s
                   for i, s in enumerate(sh))
        return _res(Tensor(np.broadcast_to(self.a, sh), self.dtype), self)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *r):
        if len(r) == 1 and isinstance(r[0], (tuple, list)):
            r = r[0]
        a = self.a.reshape((1, ) * (len(r) - self.a.ndim) + self.a.shape)
        return _res(Tensor(np.tile(a, r), self.dtype), self)

    # -- reductions / functions
    def sum(self, dim=None, keepdim=False, axis=None, dtype=None):
        if axis is not None:
            dim = axis
        s = self
        if self.dtype is bool_:
            s = self.type(int64)

        def f(xs):
            r = Sc.of(0)
            for x in xs:
                r = r + x
            return r

        return _red(s, dim, f, keepdim)

    def mean(self, dim=None, keepdim=False):
        if dim is None:
            n = self.a.size
        elif isinstance(dim, (tuple, list)):
            n = int(np.prod([self.a.shape[d] for d in dim]))
        else:
            n = self.a.shape[dim]
        return self.sum(dim, keepdim) / n

    def prod(self, dim=None):
        def f(xs):
            r = Sc.of(1)
            for x in xs:
                r = r * x
            return r
        return _red(self, dim, f)

    def cumsum(self, dim):
        r = self.a.copy()
        m = np.moveaxis(r, dim, 0)
        for i in range(1, m.shape[0]):
            m[i] = _bin(lambda x, y: x + y, _o(m[i]), _o(m[i - 1]))
        return _res(Tensor(r, self.dtype), self)

    def abs(self):
        return _res(Tensor(_map(abs, _map(Sc.of, self.a)), self.dtype), self)

    def _f(self, name):
        dt = self.dtype if self.dtype.cat == 2 else _default_dtype
        return _res(Tensor(_map(lambda x: getattr(Sc.of(x), name)(),
                                self.a), dt), self)

    def sqrt(self):
        return self._f("sqrt")

    def sin(self):
        return self._f("sin")

    def cos(self):
        return self._f("cos")

    def tan(self):
        return self._f("tan")

    def exp(self):
        return self._f("exp")

    def log(self):
        return self._f("log")

    def tanh(self):
        return self._f("tanh")

    def sign(self):
        return self._f("sign")

    def relu(self):
        return self._f("pos")

    def sigmoid(self):
        return Sigmoid()(self)

    def pow(self, e):
        return self**e

    def square(self):
        return self**2

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = maximum(r, _like(min, r))
        if max is not None:
            r = minimum(r, _like(max, r))
        return r

    clip = clamp

    def clamp_(self, min=None, max=None):
        return self._inplace(self.clamp(min, max))

    def max(self, dim=None, keepdim=False):
        return M.max(self, dim, keepdim)

    def min(self, dim=None, keepdim=False):
        return M.min(self, dim, keepdim)

    def argmax(self, dim=None):
        return argmax(self, dim)

    def argmin(self, dim=None):
        return argmax(-self, dim)

    def norm(self, p=2, dim=None, keepdim=False):
        return norm(self, p, dim, keepdim)

    def diag(self, k=0):
        return diag(self, k)

    def diagonal(self):
        return Tensor(np.diagonal(self.a), self.dtype)

    def trace(self):
        return self.diagonal().sum()

    def inverse(self):
        return inverse(self)

    def nonzero(self, as_tuple=False):
        return nonzero(self, as_tuple)

    def isnan(self):
        return Tensor(_map(lambda x: TRUE if Sc.of(x).sp == "nan" else
                           FALSE, self.a), bool_)

    def new_zeros(self, *s):
        return zeros(*s, dtype=self.dtype)

    def index_select(self, d, i):
        return Tensor(np.take(self.a, [int(Sc.of(x).const())
                                       for x in i.a.reshape(-1)], d),
                      self.dtype)

    def backward(self, gradient=None, retain_graph=None):
        if not self._rg:
            raise RuntimeError("element 0 of tensors does not require grad "
                               "and does not have a grad_fn")
        backward(self)

    def register_hook(self, h):
        raise Unsupported("hooks")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Tensor.{n}")


def _res(r, *src):
    r._rg = _grad_enabled[0] and any(getattr(s, "_rg", False) for s in src)
    return r


def _t(x, like=None):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, np.ndarray):
        return Tensor(x.astype(object), _infer(x))
    if isinstance(x, (int, float, Sc, F, bool, np.number, np.bool_)):
        return Tensor(_o(Sc.of(x) if not isinstance(x, (F, bool)) else x),
                      like.dtype if like is not None else _infer(x))
    raise TypeError(f"expected Tensor as argument, got {type(x)}")


def _need(x, fn):
    if not isinstance(x, Tensor):
        raise TypeError(f"{fn}(): argument must be Tensor, not "
                        f"{type(x).__name__}")
    return x


def _like(x, t):
    if isinstance(x, Tensor):
        return x
    return Tensor(_o(Sc.of(x)), t.dtype)


def _red(t, dim, f, keepdim=False):
    a = t.a
    if dim is None:
        r = _o(f([x for x in a.reshape(-1)]))
        if keepdim:
            r = r.reshape((1, ) * a.ndim)
        return _res(Tensor(r, t.dtype), t)
    if isinstance(dim, (tuple, list)):
        for d in sorted([d % a.ndim for d in dim], reverse=True):
            t = _red(t, d, f, keepdim)
        return t
    if a.ndim == 0:
        return _res(Tensor(_o(f([a[()]])), t.dtype), t)
    if not -a.ndim <= dim < a.ndim:
        raise IndexError("Dimension out of range")
    m = np.moveaxis(a, dim, -1)
    r = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        r[ix] = f([m[ix + (k, )] for k in range(m.shape[-1])])
    if keepdim:
        r = np.expand_dims(r, dim % a.ndim)
    return _res(Tensor(r, t.dtype), t)


# ---------------------------------------------------------- module functions
M = types.ModuleType("torch")


def _export(f):
    M.__dict__[f.__name__.rstrip("_")] = f
    return f


@_export
def tensor(x, dtype=None, device=None, requires_grad=False):
    dt = _np_dt(dtype) or _infer(x)
    src = x.dtype if isinstance(x, Tensor) else (
        _infer(x) if isinstance(x, np.ndarray) else None)
    a = _nested(x)
    if any_tracked(a):
        a = _map(lambda e: frz_sc(Sc.of(e)) if not isinstance(e, F) else e,
                 a)
    if dt.cat == 1 and src is None:
        # python ints stay ints; python floats truncate
        a = _map(lambda e: _cast_el(e, dt, None), a)
    else:
        a = _map(lambda e: _cast_el(e, dt, src), a)
    r = Tensor(a, dt)
    if requires_grad:
        r.requires_grad_(True)
    return r


@_export
def from_numpy(x):
    if x.dtype == object:
        return Tensor(x, float64)
    return Tensor(x.astype(object), _infer(x))


@_export
def as_tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor):
        return x if dtype is None else x.type(dtype)
    return tensor(x, dtype=dtype)


def _shape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return tuple(int(i) for i in s)


def _full(shape, v, dtype):
    a = np.empty(shape, dtype=object)
    a[...] = _cast_el(v, dtype)
    return Tensor(a, dtype)


def _fac(v):

    def f(*s, dtype=None, device=None, requires_grad=False, size=None):
        r = _full(_shape(s if size is None else size), v, _np_dt(dtype)
                  or _default_dtype)
        if requires_grad:
            r.requires_grad_(True)
        return r

    return f


zeros = M.zeros = _fac(0)
ones = M.ones = _fac(1)


@_export
def empty(*s, dtype=None, device=None, requires_grad=False, size=None):
    a = np.empty(_shape(s if size is None else size), dtype=object)
    f = a.reshape(-1)
    dt = _np_dt(dtype) or _default_dtype
    for i in range(f.size):
        n = f"uninit{next(_uninit)}"
        f[i] = F("bvar", n) if dt is bool_ else sym.var(n)
    if a.ndim == 0:
        a = _o(f[0])
    r = Tensor(a, dt)
    if requires_grad:
        r.requires_grad_(True)
    return r


@_export
def full(s, v, dtype=None, device=None, requires_grad=False):
    r = _full(_shape((s, )), v, _np_dt(dtype) or _infer(v))
    if requires_grad:
        r.requires_grad_(True)
    return r


def _likefac(v):

    def f(t, dtype=None, memory_format=None):
        return _full(t.a.shape, v, _np_dt(dtype) or t.dtype)

    return f


zeros_like = M.zeros_like = _likefac(0)
ones_like = M.ones_like = _likefac(1)


@_export
def empty_like(t, dtype=None):
    return empty(*t.shape, dtype=dtype or t.dtype)


@_export
def full_like(t, v):
    return _full(t.a.shape, v, t.dtype)


@_export
def eye(n, m=None, dtype=None, device=None):
    r = zeros(n, n if m is None else m, dtype=dtype)
    for i in range(min(r.a.shape)):
        r.a[i, i] = Sc.of(1)
    return r


builtins_range = range


@_export
def arange(*a, dtype=None):
    return tensor(list(range(*[int(x) for x in a])), dtype=dtype or int64)


M.range = arange


@_export
def linspace(a, b, n, dtype=None):
    a, b = Sc.of(a), Sc.of(b)
    return tensor([a + (b - a) * sym.Fraction(i, n - 1) for i in range(n)],
                  dtype=dtype)


@_export
def cat(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    ts = [_need(t, "cat") for t in ts]
    keep = [t for t in ts if not (t.a.ndim == 1 and t.a.size == 0)]
    if not keep:
        if not ts:
            raise RuntimeError("expected a non-empty list of Tensors")
        return ts[0]
    dt = keep[0].dtype
    for t in ts:
        dt = promote(dt, t.dtype)
    if any(t.a.ndim == 0 for t in keep):
        raise RuntimeError("zero-dimensional tensor cannot be concatenated")
    try:
        return _res(Tensor(np.concatenate(
            [_conv(t.a, t.dtype, dt) for t in keep], axis=dim), dt), *ts)
    except ValueError as e:
        raise RuntimeError(str(e))


M.concat = cat


@_export
def stack(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    ts = [_need(t, "stack") for t in ts]
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    if len({t.a.shape for t in ts}) > 1:
        raise RuntimeError("stack expects each tensor to be equal size")
    dt = ts[0].dtype
    for t in ts:
        dt = promote(dt, t.dtype)
    return _res(Tensor(np.stack([_conv(t.a, t.dtype, dt) for t in ts],
                                axis=dim), dt), *ts)


@_export
def vstack(ts):
    return cat([t if t.a.ndim >= 2 else t.reshape(1, -1) for t in ts], 0)


@_export
def hstack(ts):
    if ts[0].a.ndim <= 1:
        return cat([t.reshape(-1) for t in ts], 0)
    return cat(ts, 1)


@_export
def block_diag(*ts):
    ts = [t if t.a.ndim == 2 else t.reshape(1, -1) for t in ts]
    r = zeros(sum(t.a.shape[0] for t in ts), sum(t.a.shape[1] for t in ts),
              dtype=ts[0].dtype)
    i = j = 0
    for t in ts:
        r.a[i:i + t.a.shape[0], j:j + t.a.shape[1]] = t.a
        i += t.a.shape[0]
        j += t.a.shape[1]
    return _res(r, *ts)


@_export
def split(t, s, dim=0):
    n = t.a.shape[dim]
    if isinstance(s, int):
        s = [min(s, n - k) for k in range(0, n, s)]
    if sum(s) != n:
        raise RuntimeError("split_with_sizes expects sum to equal size")
    out, k = [], 0
    for c in s:
        ix = [slice(None)] * t.a.ndim
        ix[dim] = slice(k, k + c)
        out.append(_res(Tensor(t.a[tuple(ix)], t.dtype), t))
        k += c
    return tuple(out)


@_export
def chunk(t, n, dim=0):
    k = t.a.shape[dim]
    c = -(-k // n)
    return split(t, c, dim)


@_export
def matmul(x, y):
    if x.dtype is not y.dtype:
        raise RuntimeError(f"expected m1 and m2 to have the same dtype, but "
                           f"got: {x.dtype} != {y.dtype}")
    a, b = x.a, y.a
    if a.ndim == 0 or b.ndim == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    k1, k2 = a.shape[-1], b.shape[-2 if b.ndim > 1 else 0]
    if k1 != k2:
        raise RuntimeError(f"size mismatch in matmul {a.shape} {b.shape}")
    aa = a.reshape((1, -1)) if a.ndim == 1 else a
    bb = b.reshape((-1, 1)) if b.ndim == 1 else b
    try:
        bs = np.broadcast_shapes(aa.shape[:-2], bb.shape[:-2])
    except ValueError as e:
        raise RuntimeError(str(e))
    aa = np.broadcast_to(aa, bs + aa.shape[-2:])
    bb = np.broadcast_to(bb, bs + bb.shape[-2:])
    r = np.empty(bs + (aa.shape[-2], bb.shape[-1]), dtype=object)
    for ix in np.ndindex(*r.shape):
        s = Sc.of(0)
        B, i, j = ix[:-2], ix[-2], ix[-1]
        for k in range(k1):
            u, v = Sc.of(aa[B + (i, k)]), Sc.of(bb[B + (k, j)])
            if (u.sp is None and u.p.is_zero() and v.sp is None) or \
                    (v.sp is None and v.p.is_zero() and u.sp is None):
                continue
            s = s + u * v
        r[ix] = s
    if a.ndim == 1:
        r = r[..., 0, :]
    if b.ndim == 1:
        r = r[..., 0]
    return _res(Tensor(_o(r), x.dtype), x, y)


M.mm = M.mv = matmul


@_export
def dot(x, y):
    return x.dot(y)


@_export
def bmm(x, y):
    return matmul(x, y)


@_export
def outer(x, y):
    return x.reshape(-1, 1) @ y.reshape(1, -1)


def _maximum(x, y, f=sym.smax):
    x = _need(x, "maximum")
    y = _need(y, "maximum")
    return x._arith(y, f)


def maximum(x, y):
    return _maximum(x, y)


def minimum(x, y):
    return _maximum(x, y, sym.smin)


M.maximum, M.minimum = maximum, minimum
VI = collections.namedtuple("max", ["values", "indices"])


def _argbest(xs):
    """Index of the maximum (torch returns the first here), by forking."""
    best = 0
    for i in range(1, len(xs)):
        if bool(Sc.of(xs[i]) > Sc.of(xs[best])):
            best = i
    return best


class LazyVI(tuple):
    pass


def _mx(x, dim=None, keepdim=False, sgn=1, axis=None, out=None):
    if out is not None:
        return out._inplace(_mx(x, dim, keepdim, sgn, axis))
    if axis is not None:
        dim = axis
    if isinstance(dim, Tensor):
        return maximum(x, dim) if sgn > 0 else minimum(x, dim)
    red = sym.smax if sgn > 0 else sym.smin

    def f(xs):
        if not xs:
            raise RuntimeError("max(): expected non-empty tensor")
        r = Sc.of(xs[0])
        for e in xs[1:]:
            r = red(r, e)
        return r

    if x.dtype is bool_:
        x = x.type(int64)
    if dim is None:
        return _red(x, None, f)
    return MaxRet(_red(x, dim, f, keepdim), x, dim, keepdim, sgn)


class MaxRet:
    """(values, indices) with indices computed only on demand."""

    def __init__(self, values, x, dim, keepdim, sgn):
        self.values = values
        self._ = (x, dim, keepdim, sgn)
        self._i = None

    @property
    def indices(self):
        if self._i is None:
            x, dim, keepdim, sgn = self._
            self._i = _red(Tensor(x.a, int64), dim, lambda xs: Sc.of(
                _argbest([Sc.of(e) * sgn for e in xs])), keepdim)
        return self._i

    def __getitem__(self, i):
        return self.values if i in (0, -2) else self.indices

    def __iter__(self):
        yield self.values
        yield self.indices

    def __len__(self):
        return 2


M.max = lambda *a, **k: _mx(*a, **k)
M.min = lambda *a, **k: _mx(*a, sgn=-1, **k)
M.amax = lambda x, dim=None, keepdim=False: (
    _mx(x) if dim is None else _mx(x, dim, keepdim).values)
M.amin = lambda x, dim=None, keepdim=False: (
    _mx(x, sgn=-1) if dim is None else _mx(x, dim, keepdim, -1).values)


@_export
def argmax(x, dim=None):
    if dim is None:
        return Tensor(_o(Sc.of(_argbest([e for e in x.a.reshape(-1)]))),
                      int64)
    return _mx(x, dim).indices


@_export
def argmin(x, dim=None):
    return argmax(-x, dim)


@_export
def where(c, x=None, y=None):
    if x is None:
        return nonzero(c, True)
    dt = promote(_t(x).dtype, _t(y).dtype) if isinstance(x, Tensor) and \
        isinstance(y, Tensor) else (x.dtype if isinstance(x, Tensor) else
                                    (y.dtype if isinstance(y, Tensor) else
                                     _default_dtype))
    xa, ya = _t(x).a, _t(y).a
    ca, xa, ya = np.broadcast_arrays(c.a, xa, ya)
    r = np.empty(ca.shape, dtype=object)
    for ix in np.ndindex(*ca.shape):
        if dt is bool_:
            c0 = to_f(ca[ix])
            r[ix] = f_or([f_and([c0, to_f(xa[ix])]),
                          f_and([c0.neg(), to_f(ya[ix])])])
        else:
            r[ix] = sym.ite(to_f(ca[ix]), xa[ix], ya[ix])
    return _res(Tensor(r, dt), _t(x), _t(y))


@_export
def nonzero(t, as_tuple=False):
    ids = [ix for ix in np.ndindex(*t.a.shape)
           if (bool(t.a[ix]) if isinstance(t.a[ix], (F, bool)) else
               bool(Sc.of(t.a[ix]) != 0))]
    if as_tuple:
        return tuple(
            Tensor(_nested([Sc.of(i[d]) for i in ids])
                   if ids else np.empty((0, ), dtype=object), int64)
            for d in range(t.a.ndim))
    if not ids:
        return Tensor(np.empty((0, t.a.ndim), dtype=object), int64)
    return Tensor(_nested([[Sc.of(k) for k in i] for i in ids]).reshape(
        len(ids), t.a.ndim), int64)


@_export
def norm(t, p=2, dim=None, keepdim=False):
    if p in ("fro", None, 2):
        return (t * t).sum(dim, keepdim).sqrt()
    if p == 1:
        return t.abs().sum(dim, keepdim)
    if p == float("inf"):
        r = _mx(t.abs(), dim, keepdim)
        return r if dim is None else r.values
    if p == 4:
        s = t * t
        return (s * s).sum(dim, keepdim).sqrt().sqrt()
    raise Unsupported(f"norm p={p}")


@_export
def diag(t, k=0):
    if k:
        raise Unsupported("diag offset")
    if t.a.ndim == 1:
        n = t.a.shape[0]
        r = zeros(n, n, dtype=t.dtype)
        for i in range(n):
            r.a[i, i] = t.a[i]
        return _res(r, t)
    return _res(Tensor(np.diagonal(t.a).copy(), t.dtype), t)


def _det(a):
    n = a.shape[0]
    if n == 0:
        return Sc.of(1)
    if n == 1:
        return Sc.of(a[0, 0])
    r = Sc.of(0)
    for j in range(n):
        c = Sc.of(a[0, j])
        if c.sp is None and c.p.is_zero():
            continue
        m = np.delete(a[1:], j, axis=1)
        r = r + c * _det(m) * (-1 if j % 2 else 1)
    return r


@_export
def det(t):
    return _res(Tensor(_o(_det(t.a)), t.dtype), t)


@_export
def inverse(t):
    a = t.a
    n = a.shape[0]
    if n > 4:
        raise Unsupported("inverse of a large symbolic matrix")
    d = _det(a)
    if bool(d == 0):
        raise RuntimeError("linalg.inv: The diagonal element is zero, the "
                           "inversion could not be completed (singular)")
    inv = d.recip()
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, i, axis=0), j, axis=1)
            r[j, i] = _det(m) * inv * (-1 if (i + j) % 2 else 1)
    return _res(Tensor(r, t.dtype), t)


def _solve(A, b):
    one = b.a.ndim == 1
    r = inverse(A) @ (b.reshape(-1, 1) if one else b)
    return r.reshape(-1) if one else r


@_export
def cross(x, y, dim=None):
    a, b = x.a, y.a
    m = np.moveaxis(a, dim if dim is not None else -1, -1)
    n = np.moveaxis(b, dim if dim is not None else -1, -1)
    r = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        u, v = m[ix], n[ix]
        r[ix + (0, )] = u[1] * v[2] - u[2] * v[1]
        r[ix + (1, )] = u[2] * v[0] - u[0] * v[2]
        r[ix + (2, )] = u[0] * v[1] - u[1] * v[0]
    return _res(Tensor(np.moveaxis(r, -1, dim if dim is not None else -1),
                       x.dtype), x, y)


@_export
def tril(t, diagonal=0):
    r = t.a.copy()
    for ix in np.ndindex(*r.shape):
        if ix[-1] > ix[-2] + diagonal:
            r[ix] = Sc.of(0)
    return _res(Tensor(r, t.dtype), t)


@_export
def triu(t, diagonal=0):
    r = t.a.copy()
    for ix in np.ndindex(*r.shape):
        if ix[-1] < ix[-2] + diagonal:
            r[ix] = Sc.of(0)
    return _res(Tensor(r, t.dtype), t)


@_export
def tril_indices(r, c, offset=0):
    ids = [(i, j) for i in range(r) for j in range(c) if j <= i + offset]
    return tensor([[i for i, _ in ids], [j for _, j in ids]], dtype=int64)


@_export
def meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    if indexing == "xy":
        raise Unsupported("meshgrid xy")
    sh = tuple(t.a.shape[0] for t in ts)
    out = []
    for i, t in enumerate(ts):
        v = t.a.reshape(tuple(-1 if k == i else 1
                              for k in range(len(ts))))
        out.append(Tensor(np.broadcast_to(v, sh).copy(), t.dtype))
    return tuple(out)


@_export
def sort(t, dim=-1, descending=False):
    if t.a.ndim != 1:
        raise Unsupported("sort of a non-vector")
    ids = list(range(t.a.shape[0]))
    import functools

    def cmp(i, j):
        x, y = Sc.of(t.a[i]), Sc.of(t.a[j])
        if bool(x < y):
            return 1 if descending else -1
        if bool(x > y):
            return -1 if descending else 1
        return 0

    ids.sort(key=functools.cmp_to_key(cmp))
    return VI(Tensor(_nested([t.a[i] for i in ids]), t.dtype),
              tensor(ids, dtype=int64))


@_export
def unique(t, **kw):
    raise Unsupported("unique")


@_export
def allclose(x, y, rtol=1e-5, atol=1e-8):
    d = (x - y).abs() <= _t(y).abs() * rtol + atol
    return bool(d.all())


@_export
def isclose(x, y, rtol=1e-5, atol=1e-8):
    return (x - y).abs() <= _t(y).abs() * rtol + atol


@_export
def equal(x, y):
    if x.a.shape != y.a.shape:
        return False
    return bool((x == y).all())


@_export
def is_tensor(x):
    return isinstance(x, Tensor)


@_export
def numel(x):
    return x.numel()


@_export
def clone(x):
    return x.clone()


@_export
def einsum(*a):
    raise Unsupported("einsum")


def _unary(n):

    def f(x, *a, **k):
        return getattr(_need(x, n), n)(*a, **k)

    M.__dict__[n] = f


for _n in ("sum mean prod abs sqrt sin cos tan exp log tanh sign relu pow "
           "square clamp clip all any squeeze unsqueeze reshape flatten "
           "transpose t cumsum trace isnan permute argsort logical_not "
           "logical_and detach add sub mul div").split():
    _unary(_n)


def _logical_or(x, y):
    return x.bool() | y.bool()


M.logical_or = _logical_or


def _isinf(t):
    return Tensor(_map(lambda x: TRUE if Sc.of(x).sp in ("inf", "-inf")
                       else FALSE, t.a), bool_)


M.isinf = _isinf
M.isfinite = lambda t: ~(_isinf(t) | t.isnan())


class device:

    def __init__(self, *a):
        self.type = "cpu"

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1

    def __repr__(self):
        return "cpu"


M.device = device


class no_grad:

    def __enter__(self):
        self.old = _grad_enabled[0]
        _grad_enabled[0] = False

    def __exit__(self, *a):
        _grad_enabled[0] = self.old

    def __call__(self, f):

        def g(*a, **k):
            with no_grad():
                return f(*a, **k)

        return g


class enable_grad(no_grad):

    def __enter__(self):
        self.old = _grad_enabled[0]
        _grad_enabled[0] = True


M.no_grad, M.enable_grad = no_grad, enable_grad
M.manual_seed = lambda *a: None
M.is_grad_enabled = lambda: _grad_enabled[0]
M.set_grad_enabled = lambda v: _grad_enabled.__setitem__(0, v)
RAND_HOOK = [None]


def _rand(*s, dtype=None, **k):
    """Arbitrary values (the contracts must hold for every draw)."""
    a = np.empty(_shape(s), dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = sym.var(f"rand{next(_uninit)}")
    return Tensor(a if a.ndim else _o(f[0]), _np_dt(dtype)
                  or _default_dtype)


M.randn = M.rand = _rand
M.randn_like = M.rand_like = lambda t: _rand(*t.shape, dtype=t.dtype)

def _long_tensor(x):
    a = np.asarray(x)
    if a.size and a.dtype.kind not in "iu":
        raise TypeError("LongTensor of non-integers")
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = Sc.of(int(a[ix]))
    return Tensor(r, int64)


class SparseTensor:
    """COO tensor; entries with equal indices add up."""

    def __init__(self, idx, vals, size):
        self.idx, self.vals, self.size = idx, vals, tuple(size)

    def type(self, dt):
        return SparseTensor(self.idx, self.vals.type(dt), self.size)

    def to_dense(self):
        r = zeros(*self.size, dtype=self.vals.dtype)
        n = self.vals.a.shape[0]
        for k in range(n):
            ix = tuple(int(self.idx.a[d, k]) for d in range(len(self.size)))
            if any(i < 0 or i >= s for i, s in zip(ix, self.size)):
                raise RuntimeError("sparse index out of range")
            r.a[ix] = Sc.of(r.a[ix]) + self.vals.a[k]
        return _res(r, self.vals)


def _sparse_double(idx, vals, size):
    if vals.dtype is not float64:
        raise TypeError("sparse.DoubleTensor of another type")
    if idx.a.shape != (len(tuple(size)), vals.a.shape[0]):
        raise RuntimeError("sparse: number of indices and values differ")
    return SparseTensor(idx, vals, size)


# ---------------------------------------------------------------- autograd
# leaf elements become atoms of kind "leaf" with a definition; detach()
# wraps tracked atoms as "frz".  thaw() expands both.


def tracked_atoms(p, memo=None):
    """Does the polynomial depend on a live leaf?"""
    for i in p.atoms():
        if _live(i):
            return True
    return False


_LIVE = {}


def _live(i):
    r = _LIVE.get(i)
    if r is None:
        at = sym.get_atom(i)
        if at.kind == "leaf":
            r = True
        elif at.kind in ("frz", "var"):
            r = False
        else:
            r = False
            for x in at.args:
                if isinstance(x, sym.Poly):
                    r = r or tracked_atoms(x)
                elif isinstance(x, F):
                    r = r or _f_live(x)
        _LIVE[i] = r
    return r


def _f_live(f):
    if f.op in ("le", "lt", "eq", "ne"):
        return tracked_atoms(f.p)
    return any(_f_live(g) for g in f.fs)


def any_tracked(a):
    if not sym._HAS_LEAF[0]:
        return False
    for x in a.reshape(-1):
        if isinstance(x, Sc) and x.sp is None and tracked_atoms(x.p):
            return True
    return False


def frz_sc(x):
    if not sym._HAS_LEAF[0] or x.sp is not None or not tracked_atoms(x.p):
        return x
    return Sc(sym.thaw(x.p))


_leafn = itertools.count()


def make_leaf(t):
    sym._HAS_LEAF[0] = True
    n = next(_leafn)
    shape = t.a.shape
    t._vals = t.a
    new = np.empty(shape, dtype=object)
    f = new.reshape(-1)
    src = t.a.reshape(-1)
    t._leaf = []
    for k in range(f.size):
        x = Sc.of(src[k])
        if x.sp is not None:
            raise Unsupported("gradient leaf with a non-finite value")
        i = sym.atom("leaf", f"leaf{n}_{k}", (sym.thaw(x.p), ))
        t._leaf.append(i)
        f[k] = Sc(sym.patom(i))
    if new.ndim == 0:
        new = _o(f[0])
    t.a = new


def unleaf_into(t, r):
    r.a = _map(lambda x: Sc(sym.thaw(Sc.of(x).poly())), t.a)


def unleaf(t):
    t.a = _map(lambda x: Sc(sym.thaw(Sc.of(x).poly())), t.a)
    t._leaf = None


def _releaf(t, v):
    """In-place assignment to a leaf outside of the graph."""
    t._leaf = None
    t.a = _map(lambda x: frz_sc(Sc.of(x)), np.array(v, dtype=object))
    make_leaf(t)


class LeafData:
    """p.data of a leaf: reads frozen values, in-place writes update them."""
    _is_tensor = True

    def __init__(self, t):
        self.__dict__["_t"] = t

    def _frozen(self):
        return Tensor(_map(lambda x: Sc(sym.thaw(Sc.of(x).poly())),
                           self._t.a), self._t.dtype)

    def _write(self, r):
        t = self._t
        t.a = r.a
        t._leaf = None
        make_leaf(t)

    def __getattr__(self, n):
        if n.endswith("_") and not n.endswith("__"):
            fz = self._frozen()
            m = getattr(fz, n)

            def g(*a, **k):
                m(*a, **k)
                self._write(fz)
                return self

            return g
        return getattr(self._frozen(), n)

    def __getitem__(self, i):
        return self._frozen()[i]

    def __setitem__(self, i, v):
        fz = self._frozen()
        fz[i] = v
        self._write(fz)

    def __iadd__(self, o):
        fz = self._frozen()
        fz += o
        self._write(fz)
        return self

    def __matmul__(self, o):
        return self._frozen() @ o

    def __rmatmul__(self, o):
        return o @ self._frozen()

    def __mul__(self, o):
        return self._frozen() * o

    def __add__(self, o):
        return self._frozen() + o

    def __sub__(self, o):
        return self._frozen() - o


def diff_atom(i, leaf):
    """d atom / d leaf as a polynomial."""
    at = sym.get_atom(i)
    if i == leaf:
        return sym.ONE
    if not _live(i):
        return sym.ZERO
    k = at.kind
    if k == "leaf":
        return sym.ZERO
    x = Sc(sym.patom(i))
    if k == "pos":
        d = diff_poly(at.args[0], leaf)
        return sym.indicator(sym.f_lt(-sym.thaw(at.args[0]))).p * d \
            if not d.is_zero() else d
    if k == "ind":
        return sym.ZERO
    if k == "ite":
        c, a, b = at.args
        da, db = diff_poly(a, leaf), diff_poly(b, leaf)
        if da.is_zero() and db.is_zero():
            return sym.ZERO
        return sym.ite(sym.thaw_f(c), Sc(da), Sc(db)).p
    d = diff_poly(at.args[0], leaf)
    if d.is_zero():
        return d
    q = Sc(at.args[0])
    if k == "inv":
        return (-(x * x)).p * d
    if k == "sqrt":
        return (x.recip() * Sc.of(0.5)).p * d
    if k == "sin":
        return q.cos().p * d
    if k == "cos":
        return (-q.sin()).p * d
    if k == "exp":
        return x.p * d
    if k == "fn" and at.name == "tanh":
        return (Sc.of(1) - x * x).p * d
    if k == "fn" and at.name == "log":
        return q.recip().p * d
    raise Unsupported(f"derivative of {k}:{at.name}")


def diff_poly(p, leaf):
    out = sym.ZERO
    cache = {}
    for m, c in p.t.items():
        for (a, e) in m:
            if a not in cache:
                cache[a] = diff_atom(a, leaf)
            d = cache[a]
            if d.is_zero():
                continue
            md = dict(m)
            md[a] -= 1
            if md[a] == 0:
                del md[a]
            out = out + sym.Poly({tuple(sorted(md.items())):
                                  c * e}) * d
    return out


def grad(outputs, inputs, grad_outputs=None, retain_graph=None,
         create_graph=False, only_inputs=True, allow_unused=False,
         is_grads_batched=False):
    single = isinstance(inputs, Tensor)
    ins = [inputs] if single else list(inputs)
    outs = [outputs] if isinstance(outputs, Tensor) else list(outputs)
    if grad_outputs is None:
        gs = [None] * len(outs)
    elif isinstance(grad_outputs, Tensor):
        gs = [grad_outputs]
    else:
        gs = list(grad_outputs)
    total = Sc.of(0)
    for o, g in zip(outs, gs):
        if g is None:
            if o.a.size != 1:
                raise RuntimeError("grad can be implicitly created only for "
                                   "scalar outputs")
            total = total + o._one()
        else:
            for x, y in zip(o.a.reshape(-1), np.broadcast_to(
                    g.a, o.a.shape).reshape(-1)):
                total = total + Sc.of(x) * frz_sc(Sc.of(y))
    res = []
    for t in ins:
        if t._leaf is None:
            raise Unsupported("gradient with respect to a non-leaf")
        r = np.empty(t.a.shape, dtype=object)
        f = r.reshape(-1)
        for k, i in enumerate(t._leaf):
            v = Sc(diff_poly(total.poly(), i))
            f[k] = v if create_graph else frz_sc(v)
        if r.ndim == 0:
            r = _o(f[0])
        res.append(Tensor(r, t.dtype))
        res[-1]._rg = create_graph
    return tuple(res)


_ALL_LEAVES = []


def backward(t):
    x = t._one()
    for leaf_t in _ALL_LEAVES:
        pass
    # gradients are accumulated on demand for registered leaves
    live = set()

    def collect(p):
        for i in p.atoms():
            at = sym.get_atom(i)
            if at.kind == "leaf":
                live.add(i)
            elif _live(i):
                for q in at.args:
                    if isinstance(q, sym.Poly):
                        collect(q)

    collect(Sc.of(x).poly())
    for lt in list(_REG):
        if lt._leaf is None:
            continue
        if not any(i in live for i in lt._leaf):
            continue
        g, = grad(Tensor(_o(x), t.dtype), lt)
        lt.grad = g if lt.grad is None else lt.grad + g


_REG = []
_old_make_leaf = make_leaf


def make_leaf(t):  # noqa: F811
    _old_make_leaf(t)
    if not any(t is x for x in _REG):
        _REG.append(t)


def reset():
    _REG.clear()
    _LIVE.clear()
    sym._HAS_LEAF[0] = False
    _grad_enabled[0] = True


def _jacobian(func, inputs, create_graph=False, **kw):
    single = isinstance(inputs, Tensor)
    ins = (inputs, ) if single else tuple(inputs)
    cl = []
    for t in ins:
        c = Tensor(_map(lambda x: frz_sc(Sc.of(x)), t.a), t.dtype)
        c.requires_grad_(True)
        cl.append(c)
    out = func(*cl)
    res = []
    for c in cl:
        r = np.empty(out.a.shape + c.a.shape, dtype=object)
        for ix in np.ndindex(*out.a.shape):
            for k, jx in enumerate(np.ndindex(*c.a.shape)):
                r[ix + jx] = frz_sc(Sc(diff_poly(
                    Sc.of(out.a[ix]).poly(), c._leaf[k])))
        res.append(Tensor(_o(r), out.dtype))
    return res[0] if single else tuple(res)


def _Variable(t, requires_grad=False):
    r = Tensor(t.a, t.dtype)
    if requires_grad:
        r = Tensor(t.a.copy(), t.dtype)
        r.requires_grad_(True)
    return r


# ---------------------------------------------------------------- modules


class Raiser:

    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        raise Unsupported(self.n)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Raiser(self.n + "." + k)

    def __mro_entries__(self, bases):
        return (object, )


class LazyModule(types.ModuleType):

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Raiser(self.__name__ + "." + k)


def _mod(name):
    m = LazyModule(name)
    m.__path__ = []
    return m


class Parameter(Tensor):

    def __new__(cls, data=None, requires_grad=True):
        return object.__new__(cls)

    def __init__(self, data=None, requires_grad=True):
        Tensor.__init__(self, data.a, data.dtype)
        self._want_grad = requires_grad

    def __deepcopy__(self, memo):
        if self._leaf is None:
            return Parameter(Tensor(self.a.copy(), self.dtype))
        r = Parameter(self.detach())
        make_leaf(r)
        return r


class Module:

    def __init__(self):
        self.training = True

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def named_parameters(self, prefix=""):
        for n, v in list(self.__dict__.items()):
            if isinstance(v, Parameter):
                yield prefix + n, v
            elif isinstance(v, Module):
                yield from v.named_parameters(prefix + n + ".")
        for i, m in enumerate(getattr(self, "_mods", ())):
            yield from m.named_parameters(f"{prefix}{i}.")

    def parameters(self):
        for _, p in self.named_parameters():
            yield p

    def children(self):
        yield from getattr(self, "_mods", ())

    def modules(self):
        yield self
        for m in getattr(self, "_mods", ()):
            yield from m.modules()

    def state_dict(self):
        return collections.OrderedDict(
            (n, p.detach()) for n, p in self.named_parameters())

    def load_state_dict(self, d):
        for n, p in self.named_parameters():
            if d[n].a.shape != p.a.shape:
                raise RuntimeError("size mismatch")
            if p._leaf is not None:
                _releaf(p, d[n].detach().a)
            else:
                p.a[...] = d[n].a

    def to(self, *a, **k):
        for d in list(a) + [k.get("dtype")]:
            if isinstance(d, DType) and any(
                    p.dtype is not d for p in self.parameters()):
                raise Unsupported("Module.to of another dtype")
        return self

    def double(self):
        return self.to(float64)

    def eval(self):
        return self

    def train(self, mode=True):
        return self

    def zero_grad(self):
        for p in self.parameters():
            p.grad = None


class Linear(Module):

    def __init__(self, i, o, bias=True, dtype=None):
        super().__init__()
        self.in_features, self.out_features = i, o
        dt = dtype or _default_dtype
        self.weight = Parameter(empty(o, i, dtype=dt))
        self.bias = Parameter(empty(o, dtype=dt)) if bias else None

    def forward(self, x):
        y = x @ self.weight.T
        return y + self.bias if self.bias is not None else y

    def type(self, dt):
        self.weight.dtype = dt
        if self.bias is not None:
            self.bias.dtype = dt
        return self


class ReLU(Module):

    def forward(self, x):
        return x.relu()


class LeakyReLU(Module):

    def __init__(self, negative_slope=0.01):
        super().__init__()
        self.negative_slope = negative_slope

    def forward(self, x):
        s = self.negative_slope
        return _res(Tensor(_map(lambda e: Sc.of(e).pos() - (
            -Sc.of(e)).pos() * s, x.a), x.dtype), x)


class Sequential(Module):

    def __init__(self, *ms):
        super().__init__()
        if len(ms) == 1 and isinstance(ms[0], collections.OrderedDict):
            ms = list(ms[0].values())
        self._mods = list(ms)

    def forward(self, x):
        for m in self._mods:
            x = m(x)
        return x

    def __len__(self):
        return len(self._mods)

    def __iter__(self):
        return iter(self._mods)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Sequential(*self._mods[i])
        return self._mods[i]


class ModuleList(Sequential):

    def __getitem__(self, i):
        if isinstance(i, slice):
            return ModuleList(self._mods[i])
        return self._mods[i]

    def __init__(self, ms=()):
        Module.__init__(self)
        self._mods = list(ms)

    def append(self, m):
        self._mods.append(m)
        return self

    forward = None


class Sigmoid(Module):

    def forward(self, x):
        return 1. / ((-x).exp() + 1.)


class HingeEmbeddingLoss(Module):

    def __init__(self, margin=1.0, reduction="mean"):
        super().__init__()
        self.margin, self.reduction = margin, reduction

    def forward(self, x, y):
        # y == 1: x ; y == -1: max(0, margin - x)
        ya = np.broadcast_to(y.a, x.a.shape)
        r = np.empty(x.a.shape, dtype=object)
        for ix in np.ndindex(*x.a.shape):
            v = Sc.of(ya[ix])
            z = Sc.of(x.a[ix])
            h = (Sc.of(self.margin) - z).pos()
            if not v.is_const():
                raise Unsupported("symbolic hinge target")
            c = v.const()
            r[ix] = z if c == 1 else (h if c == -1 else z + h)
        t = _res(Tensor(r if r.ndim else _o(r[()]), x.dtype), x)
        return {"mean": t.mean, "sum": t.sum,
                "none": lambda: t}[self.reduction]()


class TensorDataset:

    def __init__(self, *ts):
        if any(t.shape[0] != ts[0].shape[0] for t in ts):
            raise AssertionError("Size mismatch between tensors")
        self.tensors = ts

    def __getitem__(self, i):
        return tuple(t[i] for t in self.tensors)

    def __len__(self):
        return self.tensors[0].shape[0]


class Subset:

    def __init__(self, dataset, indices):
        self.dataset, self.indices = dataset, indices

    def __getitem__(self, i):
        if isinstance(i, list):
            return self.dataset[[self.indices[k] for k in i]]
        return self.dataset[self.indices[i]]

    def __len__(self):
        return len(self.indices)


class MSELoss(Module):

    def __init__(self, reduction="mean"):
        super().__init__()
        self.reduction = reduction

    def forward(self, x, y):
        t = (x - y)**2
        return {"mean": t.mean, "sum": t.sum,
                "none": lambda: t}[self.reduction]()


class L1Loss(MSELoss):

    def forward(self, x, y):
        t = (x - y).abs()
        return {"mean": t.mean, "sum": t.sum,
                "none": lambda: t}[self.reduction]()


class BCELoss(MSELoss):

    def forward(self, x, y):
        if tuple(x.shape) != tuple(y.shape):
            raise ValueError("Using a target size that is different to the "
                             "input size")
        t = -(y * x.log() + (1 - y) * (1 - x).log())
        return {"mean": t.mean, "sum": t.sum,
                "none": lambda: t}[self.reduction]()


def build():
    sym._HAS_LEAF[0] = False
    m = M
    m.Tensor = Tensor
    m.Size = Size
    m.dtype = DType
    for d in (float64, float32, float16, int64, int32, uint8):
        m.__dict__[d.name] = d
    m.double, m.float, m.long, m.int = float64, float32, int64, int32
    m.bool = bool_
    m.set_default_dtype = set_default_dtype
    m.get_default_dtype = get_default_dtype
    m.inf = float("inf")
    m.pi = math.pi
    m.DoubleTensor = lambda x: tensor(x, dtype=float64)
    m.LongTensor = _long_tensor
    sp = _mod("torch.sparse")
    sp.DoubleTensor = _sparse_double
    m.sparse = sp
    nn = _mod("torch.nn")
    for c in (Module, Linear, ReLU, LeakyReLU, Sequential, Parameter,
              HingeEmbeddingLoss, MSELoss, L1Loss, BCELoss, ModuleList, Sigmoid):
        nn.__dict__[c.__name__] = c
    for n in ("Conv2d", "ConvTranspose2d", "MaxPool2d", "Upsample"):
        nn.__dict__[n] = Raiser("torch.nn." + n)
    fn = _mod("torch.nn.functional")
    fn.relu = lambda x: x.relu()
    fn.leaky_relu = lambda x, negative_slope=0.01: LeakyReLU(
        negative_slope)(x)
    fn.sigmoid = m.sigmoid = lambda x: Sigmoid()(x)
    nn.functional = fn
    m.nn = nn
    ag = _mod("torch.autograd")
    ag.grad = grad
    ag.Variable = _Variable
    agf = _mod("torch.autograd.functional")
    agf.jacobian = _jacobian
    ag.functional = agf
    m.autograd = ag
    la = _mod("torch.linalg")
    la.norm = lambda t, ord=2, dim=None: norm(t, ord, dim)
    la.inv = inverse
    la.solve = _solve
    la.det = det
    m.linalg = la
    ut = _mod("torch.utils")
    ud = _mod("torch.utils.data")
    ut.data = ud
    ud.TensorDataset, ud.Subset = TensorDataset, Subset
    tb = _mod("torch.utils.tensorboard")
    ut.tensorboard = tb
    m.utils = ut
    op = _mod("torch.optim")
    opo = _mod("torch.optim.optimizer")

    class Optimizer:

        def __init__(self, params, defaults):
            params = list(params)
            self.param_groups = [dict(defaults, params=params)] if not (
                params and isinstance(params[0], dict)) else [
                    dict(defaults, **g) for g in params]
            self.state = collections.defaultdict(dict)

        def zero_grad(self):
            for g in self.param_groups:
                for p in g["params"]:
                    p.grad = None

        def __setstate__(self, s):
            self.__dict__.update(s)

    opo.Optimizer = op.Optimizer = Optimizer
    opo.required = object()
    op.optimizer = opo
    m.optim = op
    m.preserve_format = "preserve"
    m.random = _mod("torch.random")
    m.__path__ = []

    def _cmp(op):

        def f(a, b):
            if not isinstance(a, Tensor):
                a = tensor(a)
            return op(a, b)

        return f

    import operator
    for n1, n2, op in (("le", "less_equal", operator.le),
                       ("lt", "less", operator.lt),
                       ("ge", "greater_equal", operator.ge),
                       ("gt", "greater", operator.gt),
                       ("eq", None, operator.eq),
                       ("ne", "not_equal", operator.ne)):
        m.__dict__[n1] = _cmp(op)
        if n2:
            m.__dict__[n2] = _cmp(op)

    def _ga(k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Raiser("torch." + k)

    m.__getattr__ = _ga
    return {
        "torch": m, "torch.nn": nn, "torch.nn.functional": fn,
        "torch.autograd": ag, "torch.autograd.functional": agf,
        "torch.linalg": la, "torch.utils": ut, "torch.utils.data": ud,
        "torch.utils.tensorboard": tb, "torch.optim": op,
        "torch.optim.optimizer": opo
    }
