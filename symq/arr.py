"""numpy interop for symbolic scalars: object-array subclass and numpy proxy."""
import math
import functools
import types
import numpy as np
from .core import S, SBool, SymUnsupported, is_num, lift, sym_angle
from . import core

_OBJ = np.dtype(object)


def has_sym(x):
    if isinstance(x, (S, SBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == _OBJ and any(isinstance(e, (S, SBool)) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def _is_scalar_elem(e):
    return isinstance(e, (S, SBool)) or is_num(e) or isinstance(e, bool)


class SArr(np.ndarray):
    """object array whose elements are numbers / symbolic scalars."""

    def __new__(cls, data, kind=None):
        a = np.empty(np.shape(data), dtype=object) if not isinstance(
            data, np.ndarray) else data
        if not isinstance(data, np.ndarray):
            raise TypeError
        a = np.asarray(data, dtype=object).view(cls)
        a._kind = kind
        return a

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", None)

    @property
    def real(self):
        return _map(lambda e: e.real, self)

    @property
    def imag(self):
        return _map(lambda e: e.imag, self)

    def conj(self):
        return _map(_conj, self)

    conjugate = conj

    def __setitem__(self, idx, val):
        if self._kind == "real":
            val = _drop_imag(val)
        idx = _fix_index(idx)
        if isinstance(val, (S, SBool)):
            # keep numpy from trying to iterate / convert
            box = np.empty((), dtype=object)
            box[()] = val
            np.ndarray.__setitem__(self, idx, box) if not _single(self, idx) \
                else np.ndarray.__setitem__(self, idx, val)
            return
        np.ndarray.__setitem__(self, idx, val)

    def __getitem__(self, idx):
        return np.ndarray.__getitem__(self, _fix_index(idx))

    def astype(self, dtype, *a, **k):
        r = self.copy()
        if dtype in (float, "float", "d", "f", np.float64):
            r = _map(_real_of, self)
            r._kind = "real"
        elif dtype in (complex, "complex", np.complex128):
            r._kind = "complex"
        elif dtype in (object,):
            return r
        else:
            raise SymUnsupported("astype %r" % (dtype,))
        return r

    def dot(self, other, out=None):
        return sym_dot(self, other)

    def trace(self, *a, **k):
        r = 0
        for i in range(min(self.shape)):
            r = self[i, i] + r
        return r

    def sum(self, axis=None, **k):
        return np.add.reduce(self, axis=axis) if axis is not None else _sum_all(self)

    def max(self, axis=None, **k):
        if axis is None:
            return _fold(_max2, self)
        return np.maximum.reduce(self, axis=axis)

    def min(self, axis=None, **k):
        if axis is None:
            return _fold(_min2, self)
        return np.minimum.reduce(self, axis=axis)

    def mean(self, axis=None, **k):
        if axis is not None:
            raise SymUnsupported("mean axis")
        return _sum_all(self) / self.size

    def tolist(self):
        return np.ndarray.tolist(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        return super().__array_function__(func, types_, args, kwargs)

    def __matmul__(self, o):
        return sym_dot(self, o)

    def __rmatmul__(self, o):
        return sym_dot(o, self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        raise ValueError("The truth value of an array with more than one element"
                         " is ambiguous. Use a.any() or a.all()")

    def __format__(self, spec):
        if spec:
            raise TypeError("unsupported format string passed to "
                            "numpy.ndarray.__format__")
        return "<symarr>"

    def __repr__(self):
        return "<symarr %s>" % (self.shape,)

    __str__ = __repr__


def _single(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    return len(idx) == a.ndim and all(isinstance(i, (int, np.integer)) for i in idx)


def _fix_index(idx):
    if isinstance(idx, np.ndarray) and idx.dtype == _OBJ:
        if any(isinstance(e, SBool) for e in idx.flat) or idx.size == 0:
            return np.array([bool(e) for e in idx.flat], dtype=bool).reshape(idx.shape)
        return np.array([int(e) for e in idx.flat], dtype=int).reshape(idx.shape)
    return idx


def _real_of(e):
    return e.real


def _conj(e):
    return e.conjugate()


def _drop_imag(val):
    if isinstance(val, S):
        return val if val.is_real() else val.real
    if isinstance(val, (complex, np.complexfloating)):
        if isinstance(val, np.complexfloating):
            return val.real
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if isinstance(val, np.ndarray) and val.dtype == _OBJ:
        return _map(lambda e: _drop_imag(np.complex128(e) if isinstance(e, complex) else e), val)
    return val


def wrap(a):
    return SArr(a) if not isinstance(a, SArr) else a


def _obj(shape):
    return np.empty(shape, dtype=object)


def _map(f, a):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    r = _obj(a.shape)
    rf, af = r.reshape(-1), np.asarray(a).reshape(-1)
    for i in range(af.shape[0]):
        rf[i] = f(af[i])
    return SArr(r)


def to_obj(x):
    """any array-like of numbers -> plain object ndarray"""
    if isinstance(x, np.ndarray):
        if x.dtype == _OBJ:
            return x.view(np.ndarray)
        r = _obj(x.shape)
        r.reshape(-1)[:] = [e for e in x.reshape(-1).tolist()] if x.size else []
        return r
    if _is_scalar_elem(x):
        r = _obj(())
        r[()] = x.item() if isinstance(x, np.generic) else x
        return r
    if isinstance(x, (list, tuple)):
        parts = [to_obj(e) for e in x]
        if not parts:
            return _obj((0,))
        shp = parts[0].shape
        for p in parts:
            if p.shape != shp:
                raise ValueError("inhomogeneous shape")
        r = _obj((len(parts),) + shp)
        for i, p in enumerate(parts):
            if shp == ():
                r[i] = p[()]
            else:
                r[i] = p
        return r
    raise SymUnsupported("array of %r" % type(x))


def sym_dot(a, b):
    from .stubs import SQobj
    if isinstance(a, SQobj) or isinstance(b, SQobj):
        return NotImplemented
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return handle_ufunc(np.multiply, "__call__", (wrap(a), wrap(b)), {})
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]:
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    if a.ndim == 1 and b.ndim == 1:
        return _sum_list([a[i] * b[i] for i in range(len(a))])
    if a.ndim == 1:
        return SArr(_mm(a.reshape(1, -1), b)[0])
    if b.ndim == 1:
        return SArr(_mm(a, b.reshape(-1, 1))[:, 0])
    if a.ndim != 2 or b.ndim != 2:
        raise SymUnsupported("matmul of >2-d symbolic arrays")
    return SArr(_mm(a, b))


def _iszero(x):
    if isinstance(x, S):
        return not x.t
    return is_num(x) and x == 0


def _sum_list(xs):
    r = 0
    for x in xs:
        if _iszero(x):
            continue
        r = x if (not isinstance(r, S) and r == 0) else r + x
    return r


def _mm(a, b):
    n, k = a.shape
    m = b.shape[1]
    r = _obj((n, m))
    for i in range(n):
        for j in range(m):
            xs = []
            for l in range(k):
                x, y = a[i, l], b[l, j]
                if _iszero(x) or _iszero(y):
                    continue
                if not isinstance(x, S) and isinstance(y, S):
                    x = S.const(x)
                xs.append(x * y)
            r[i, j] = _sum_list(xs)
    return r


def _sum_all(a):
    return _sum_list(list(np.asarray(a).reshape(-1)))


def _fold(f, a):
    xs = list(np.asarray(a).reshape(-1))
    if not xs:
        raise ValueError("zero-size array to reduction operation")
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def _max2(a, b):
    return a if a >= b else b


def _min2(a, b):
    return a if a <= b else b


# --------------------------------------------------------------------------
def _c(f):
    return f


def _numf(name):
    npf = getattr(np, name)
    meth = {"exp": "exp", "sqrt": "sqrt", "sin": "sin", "cos": "cos",
            "tanh": "tanh", "floor": "floor", "ceil": "ceil", "log": "log"}[name]

    def f(x):
        if isinstance(x, S):
            return getattr(x, meth)()
        return npf(x).item() if hasattr(npf(x), "item") else npf(x)
    return f


def _div(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        with np.errstate(all="ignore"):
            return (np.asarray(a) / np.asarray(b)).item()
    if not isinstance(b, S) and b == 0:
        b = np.float64(0.0)
    return a / b


def _isnan(x):
    if isinstance(x, (S, SBool)):
        return False
    return bool(np.isnan(x))


def _isinf(x):
    if isinstance(x, (S, SBool)):
        return False
    return bool(np.isinf(x))


def _sign(x):
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


def _conjf(x):
    return x.conjugate()


UF = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": _div,
    "true_divide": _div,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "fmod": lambda a, b: a % b,
    "power": lambda a, b: a ** b,
    "float_power": lambda a, b: a ** b,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "square": lambda a: a * a,
    "reciprocal": lambda a: 1 / a,
    "conjugate": _conjf,
    "sign": _sign,
    "maximum": _max2,
    "minimum": _min2,
    "fmax": _max2,
    "fmin": _min2,
    "deg2rad": lambda a: a * (math.pi / 180),
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "isnan": _isnan,
    "isinf": _isinf,
    "isfinite": lambda a: not (_isnan(a) or _isinf(a)),
    "logical_and": lambda a, b: bool(a) and bool(b),
    "logical_or": lambda a, b: bool(a) or bool(b),
    "logical_not": lambda a: not bool(a),
    "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b,
    "invert": lambda a: (~a if isinstance(a, SBool) else (not a)),
    "rint": lambda a: (a + 0.5).floor() if isinstance(a, S) else np.rint(a),
}
for _n in ("exp", "sqrt", "sin", "cos", "tanh", "floor", "ceil", "log"):
    UF[_n] = _numf(_n)

_BOOLU = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal",
          "isnan", "isinf", "isfinite", "logical_and", "logical_or",
          "logical_not", "bitwise_and", "bitwise_or", "invert"}


def handle_ufunc(ufunc, method, inputs, kw):
    from .stubs import SQobj
    name = ufunc.__name__
    out = kw.pop("out", None)
    if any(isinstance(x, SQobj) for x in inputs):
        return NotImplemented
    if name in ("matmul", "vecdot"):
        r = sym_dot(*inputs)
        return _store(out, r)
    f = UF.get(name)
    if f is None:
        raise SymUnsupported("ufunc %s" % name)
    if method == "__call__":
        kw.pop("dtype", None)
        kw.pop("casting", None)
        where = kw.pop("where", True)
        if kw:
            raise SymUnsupported("ufunc kwargs %s" % list(kw))
        # containers of matrices (object arrays of arrays) go element-wise
        ins = [to_obj(x) if not (isinstance(x, np.ndarray) and x.dtype == _OBJ)
               else x.view(np.ndarray) for x in inputs]
        shp = np.broadcast_shapes(*[i.shape for i in ins])
        ins = [np.broadcast_to(i, shp).reshape(-1) for i in ins]
        n = int(np.prod(shp)) if shp else 1
        vals = [f(*[i[q] for i in ins]) for q in range(n)]
        if name in _BOOLU:
            if shp == () and out is None and all(
                    not isinstance(x, np.ndarray) for x in inputs):
                return vals[0]
            vals = [bool(v) for v in vals]
            r = np.array(vals, dtype=bool).reshape(shp)
            if shp == ():
                return bool(r)
            return _store(out, r)
        if shp == () and out is None:
            return vals[0]
        r = _obj(shp)
        rf = r.reshape(-1)
        for q in range(n):
            rf[q] = vals[q]
        if where is not True:
            raise SymUnsupported("ufunc where")
        return _store(out, SArr(r))
    if method == "reduce":
        a = to_obj(inputs[0]) if not isinstance(inputs[0], np.ndarray) else \
            np.asarray(inputs[0]).view(np.ndarray)
        axis = kw.get("axis", 0)
        if len(inputs) > 1 and axis == 0:
            axis = inputs[1]
        if axis is None or a.ndim <= 1:
            xs = list(a.reshape(-1))
            if name in ("logical_or", "logical_and"):
                r = name == "logical_and"
                for x in xs:
                    if bool(x) != r:
                        return not r
                return r
            if name == "add":
                return _sum_list(xs)
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
            return r
        if isinstance(axis, tuple):
            raise SymUnsupported("reduce over axes")
        a2 = np.moveaxis(a, axis, 0)
        r = a2[0]
        for i in range(1, a2.shape[0]):
            r = handle_ufunc(ufunc, "__call__", (wrap(r), wrap(a2[i])), {})
        return r
    if method == "outer":
        a, b = to_obj(inputs[0]).reshape(-1), to_obj(inputs[1]).reshape(-1)
        r = _obj((len(a), len(b)))
        for i in range(len(a)):
            for j in range(len(b)):
                r[i, j] = f(a[i], b[j])
        return SArr(r)
    if method == "accumulate":
        a = to_obj(inputs[0])
        if a.ndim != 1:
            raise SymUnsupported("accumulate nd")
        r = _obj(a.shape)
        acc = None
        for i in range(len(a)):
            acc = a[i] if acc is None else f(acc, a[i])
            r[i] = acc
        return SArr(r)
    raise SymUnsupported("ufunc method %s" % method)


def _store(out, r):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if isinstance(o, np.ndarray) and o.dtype != _OBJ and has_sym(r):
        raise SymUnsupported("in-place symbolic store into a numeric array")
    o[...] = r
    return o


# --------------------------------------------------------------------------
FUNCS = {}


def implements(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


def _any_sym(*xs):
    return any(has_sym(x) for x in xs)


@implements(np.real)
def _f_real(x):
    if isinstance(x, S):
        return x.real
    if isinstance(x, np.ndarray) and x.dtype == _OBJ:
        return wrap(x).real
    return np.real(x)


@implements(np.imag)
def _f_imag(x):
    if isinstance(x, S):
        return x.imag
    if isinstance(x, np.ndarray) and x.dtype == _OBJ:
        return wrap(x).imag
    return np.imag(x)


@implements(np.angle)
def _f_angle(x, deg=False):
    if isinstance(x, S):
        return sym_angle(x)
    if isinstance(x, np.ndarray) and x.dtype == _OBJ:
        return _map(sym_angle, x)
    return np.angle(x)


@implements(np.trace)
def _f_trace(a, *k, **kw):
    if isinstance(a, np.ndarray) and a.dtype == _OBJ:
        return wrap(a).trace()
    return np.trace(a, *k, **kw)


@implements(np.dot)
def _f_dot(a, b, out=None):
    if _any_sym(a, b) or isinstance(a, SArr) or isinstance(b, SArr):
        return sym_dot(a, b)
    return np.dot(a, b)


@implements(np.matmul)
def _f_matmul(a, b, **k):
    if _any_sym(a, b) or isinstance(a, SArr) or isinstance(b, SArr):
        return sym_dot(a, b)
    return np.matmul(a, b)


@implements(np.sum)
def _f_sum(a, axis=None, **kw):
    if isinstance(a, (list, tuple)) and has_sym(a):
        a = SArr(to_obj(a))
    if isinstance(a, np.ndarray) and a.dtype == _OBJ:
        if axis is None:
            return _sum_all(a)
        return handle_ufunc(np.add, "reduce", (a,), {"axis": axis})
    if isinstance(a, S):
        return a
    return np.sum(a, axis=axis, **kw)


@implements(np.cumsum)
def _f_cumsum(a, axis=None, **kw):
    if has_sym(a) or isinstance(a, SArr):
        return handle_ufunc(np.add, "accumulate", (to_obj(a),), {})
    return np.cumsum(a, axis=axis)


@implements(np.prod)
def _f_prod(a, axis=None, **kw):
    if has_sym(a):
        r = 1
        for x in to_obj(a).reshape(-1):
            r = x * r
        return r
    return np.prod(np.asarray(a, dtype=float) if isinstance(a, SArr) else a, axis=axis)


@implements(np.max, np.amax)
def _f_max(a, axis=None, **kw):
    if has_sym(a) or isinstance(a, SArr):
        return wrap(SArr(to_obj(a))).max(axis)
    return np.max(a, axis=axis, **kw)


@implements(np.min, np.amin)
def _f_min(a, axis=None, **kw):
    if has_sym(a) or isinstance(a, SArr):
        return wrap(SArr(to_obj(a))).min(axis)
    return np.min(a, axis=axis, **kw)


@implements(np.argmax)
def _f_argmax(a, *k, **kw):
    xs = list(to_obj(a).reshape(-1))
    b = 0
    for i in range(1, len(xs)):
        if xs[i] > xs[b]:
            b = i
    return b


@implements(np.argmin)
def _f_argmin(a, *k, **kw):
    xs = list(to_obj(a).reshape(-1))
    b = 0
    for i in range(1, len(xs)):
        if xs[i] < xs[b]:
            b = i
    return b


@implements(np.any)
def _f_any(a, axis=None, **kw):
    if isinstance(a, (SBool, S)):
        return bool(a)
    if isinstance(a, SArr):
        a = np.array([bool(e) for e in a.flat], dtype=bool).reshape(a.shape)
    return np.any(a, axis=axis, **kw)


@implements(np.all)
def _f_all(a, axis=None, **kw):
    if isinstance(a, (SBool, S)):
        return bool(a)
    if isinstance(a, SArr):
        a = np.array([bool(e) for e in a.flat], dtype=bool).reshape(a.shape)
    return np.all(a, axis=axis, **kw)


@implements(np.allclose)
def _f_allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not _any_sym(a, b):
        return np.allclose(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex),
                           rtol=rtol, atol=atol)
    a, b = np.broadcast_arrays(to_obj(a), to_obj(b))
    ds = [(lift(x) - y, y) for x, y in zip(a.reshape(-1), b.reshape(-1))]
    if any(not d.is_real() or len(d.t) > 12 for d, _ in ds):
        # closeness of long complex expressions: both outcomes are explored
        eng = core.ENGINE
        import z3
        return eng.decide(SBool(z3.Bool("nondet!%d" % eng.count("nondet"))))
    r = True
    for d, y in ds:
        t = atol + rtol * abs(lift(y))
        r = (d <= t) & (d >= -t) & r
    return bool(r)


@implements(np.isclose)
def _f_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not _any_sym(a, b):
        return np.isclose(a, b, rtol=rtol, atol=atol)
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return bool(abs(lift(a) - b) <= atol + rtol * abs(lift(b)))
    a, b = np.broadcast_arrays(to_obj(a), to_obj(b))
    r = [bool(abs(lift(x) - y) <= atol + rtol * abs(lift(y)))
         for x, y in zip(a.reshape(-1), b.reshape(-1))]
    return np.array(r, dtype=bool).reshape(a.shape)


@implements(np.array_equal)
def _f_array_equal(a, b, **kw):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if not bool(x == y):
            return False
    return True


@implements(np.diagflat)
def _f_diagflat(v, k=0):
    if not isinstance(v, SArr) and not has_sym(v):
        return np.diagflat(v, k)
    v = to_obj(v).reshape(-1)
    r = _obj((len(v), len(v)))
    r[...] = 0
    for i in range(len(v)):
        r[i, i] = v[i]
    return SArr(r)


@implements(np.diag)
def _f_diag(v, k=0):
    if not isinstance(v, SArr) and not has_sym(v):
        return np.diag(v, k)
    v = to_obj(v)
    if v.ndim == 2:
        return SArr(np.array([v[i, i] for i in range(min(v.shape))], dtype=object))
    return _f_diagflat(v)


@implements(np.clip)
def _f_clip(a, lo=None, hi=None, out=None, a_min=None, a_max=None, **kw):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    if not _any_sym(a, lo, hi):
        if isinstance(a, SArr):
            a = np.asarray(a, dtype=float)
        return np.clip(a, lo, hi)
    x = a
    sc = not isinstance(a, np.ndarray)
    x = SArr(to_obj(a))
    if lo is not None:
        x = handle_ufunc(np.maximum, "__call__", (x, lo), {})
    if hi is not None:
        x = handle_ufunc(np.minimum, "__call__", (wrap(x) if isinstance(x, np.ndarray) else x, hi), {})
    if out is not None:
        out[...] = x
        return out
    return x


@implements(np.where)
def _f_where(c, *ab):
    if not ab:
        return np.where(np.asarray(_f_boolarr(c)))
    c = _f_boolarr(c)
    a, b = to_obj(ab[0]), to_obj(ab[1])
    shp = np.broadcast_shapes(np.shape(c), a.shape, b.shape)
    c = np.broadcast_to(c, shp).reshape(-1)
    a = np.broadcast_to(a, shp).reshape(-1)
    b = np.broadcast_to(b, shp).reshape(-1)
    r = _obj(shp)
    rf = r.reshape(-1)
    for i in range(len(c)):
        rf[i] = a[i] if c[i] else b[i]
    return SArr(r)


def _f_boolarr(c):
    if isinstance(c, (SBool, S)):
        return np.array(bool(c))
    if isinstance(c, np.ndarray) and c.dtype == _OBJ:
        return np.array([bool(e) for e in c.flat], dtype=bool).reshape(c.shape)
    return np.asarray(c, dtype=bool)


@implements(np.linalg.norm)
def _f_norm(a, ord=None, axis=None, **kw):
    if not _any_sym(a):
        return np.linalg.norm(np.asarray(a, dtype=complex), ord, axis)
    a = to_obj(a)
    if axis is not None or not (ord is None or ord in (2, "fro") and a.ndim <= 2):
        raise SymUnsupported("norm")
    if ord == 2 and a.ndim == 2:
        raise SymUnsupported("spectral norm")
    return lift(_sum_list([(x * x.conjugate()) for x in map(lift, a.reshape(-1))])).sqrt()


@implements(np.nan_to_num)
def _f_nan_to_num(a, *k, **kw):
    return a


@implements(np.isnan)
def _f_isnan(x):
    return handle_ufunc(np.isnan, "__call__", (x,), {})


@implements(np.einsum)
def _f_einsum(spec, *ops, **kw):
    if not _any_sym(*ops) and not any(isinstance(o, SArr) for o in ops):
        return np.einsum(spec, *ops, **kw)
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        letters = sorted(set(lhs.replace(",", "")))
        rhs = "".join(c for c in letters if lhs.replace(",", "").count(c) == 1)
    ins = lhs.split(",")
    ops = [to_obj(o) for o in ops]
    dim = {}
    for s_, o in zip(ins, ops):
        for c, d in zip(s_, o.shape):
            dim[c] = d
    sumv = [c for c in dim if c not in rhs]
    import itertools
    shp = tuple(dim[c] for c in rhs)
    r = _obj(shp)
    for oi in itertools.product(*[range(dim[c]) for c in rhs]):
        env = dict(zip(rhs, oi))
        terms = []
        for si in itertools.product(*[range(dim[c]) for c in sumv]):
            env.update(zip(sumv, si))
            p = 1
            for s_, o in zip(ins, ops):
                p = o[tuple(env[c] for c in s_)] * p
            terms.append(p)
        r[oi] = _sum_list(terms)
    if shp == ():
        return r[()]
    return SArr(r)


@implements(np.vdot)
def _f_vdot(a, b):
    a, b = to_obj(a).reshape(-1), to_obj(b).reshape(-1)
    return _sum_list([lift(x).conjugate() * y for x, y in zip(a, b)])


# --------------------------------------------------------------------------
# numpy proxy used as the module global ``np`` of the code under test
def _isfc(dtype):
    """float / complex dtype request -> 'real' / 'complex' / None"""
    if dtype is None or dtype is float:
        return "real"
    if dtype is complex:
        return "complex"
    if getattr(dtype, "_sym_float", False):
        return "real"
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return None
    return {"f": "real", "c": "complex"}.get(k)


def _filled(shape, v, kind):
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    r = _obj(tuple(int(x) for x in shape))
    r[...] = v
    return SArr(r, kind)


def p_zeros(shape, dtype=None, *a, **k):
    kind = _isfc(dtype)
    return _filled(shape, 0, kind) if kind else np.zeros(shape, dtype, *a, **k)


def p_ones(shape, dtype=None, *a, **k):
    kind = _isfc(dtype)
    return _filled(shape, 1, kind) if kind else np.ones(shape, dtype, *a, **k)


def p_empty(shape, dtype=None, *a, **k):
    kind = _isfc(dtype)
    if kind:
        r = _filled(shape, 0, kind)
        rf = r.view(np.ndarray).reshape(-1)
        eng = core.ENGINE
        for i in range(rf.shape[0]):
            # uninitialised memory: an arbitrary value
            rf[i] = eng.garbage() if eng is not None else 0
        return r
    return np.empty(shape, dtype, *a, **k)


def p_full(shape, v, dtype=None, *a, **k):
    if dtype is None and (isinstance(v, S) or isinstance(v, (float, complex))):
        return _filled(shape, v, "complex" if isinstance(v, complex) else
                       ("real" if not isinstance(v, S) or v.is_real() else "complex"))
    kind = _isfc(dtype) if dtype is not None else None
    return _filled(shape, v, kind) if kind else np.full(shape, v, dtype, *a, **k)


def p_eye(n, m=None, k=0, dtype=float, **kw):
    kind = _isfc(dtype)
    if not kind:
        return np.eye(n, m, k, dtype)
    m = n if m is None else m
    r = _filled((n, m), 0, None)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return SArr(r, kind)


def p_identity(n, dtype=float, **kw):
    return p_eye(n, dtype=dtype)


def p_array(x, dtype=None, copy=True, **k):
    if isinstance(x, SArr):
        kind = _isfc(dtype) if dtype is not None else x._kind
        r = x.copy() if copy else x
        r._kind = kind
        return r
    if has_sym(x):
        return SArr(to_obj(x), _isfc(dtype) if dtype is not None else None)
    if isinstance(x, (list, tuple)) and any(isinstance(e, SArr) for e in x):
        return SArr(to_obj(x))
    r = np.array(x, dtype=None if getattr(dtype, "_sym_float", False) else dtype, **k)
    if r.dtype.kind in "fc":
        kind = "real" if r.dtype.kind == "f" else "complex"
        return SArr(to_obj(r), kind)
    return r


def p_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or _isfc(dtype) == x._kind
                                or dtype is object):
        return x
    return p_array(x, dtype, **k)


def p_zeros_like(a, dtype=None, **k):
    if isinstance(a, SArr) and dtype is None:
        return _filled(a.shape, 0, a._kind)
    return p_zeros(np.shape(a), dtype if dtype is not None else np.asarray(a).dtype)


def p_ones_like(a, dtype=None, **k):
    if isinstance(a, SArr) and dtype is None:
        return _filled(a.shape, 1, a._kind)
    return p_ones(np.shape(a), dtype if dtype is not None else np.asarray(a).dtype)


def p_empty_like(a, dtype=None, **k):
    if isinstance(a, SArr) and dtype is None:
        r = p_empty(a.shape)
        r._kind = a._kind
        return r
    return p_empty(np.shape(a), dtype if dtype is not None else np.asarray(a).dtype)


def p_full_like(a, v, dtype=None, **k):
    if isinstance(a, SArr) and dtype is None:
        return _filled(a.shape, v, a._kind)
    return p_full(np.shape(a), v, dtype)


def p_linspace(a, b, num=50, endpoint=True, **k):
    if isinstance(a, S) or isinstance(b, S):
        n = int(num)
        den = (n - 1) if endpoint else n
        r = _obj((n,))
        for i in range(n):
            r[i] = a + (b - a) * i / den if den else lift(a)
        return SArr(r)
    r = np.linspace(a, b, num, endpoint, **k)
    return r


def p_copy(a, **k):
    return a.copy() if isinstance(a, np.ndarray) else p_array(a)


def p_stack(fn):
    def f(tup, *a, **k):
        tup = list(tup)
        if has_sym(tup) or any(isinstance(t, SArr) for t in tup):
            return SArr(fn([np.asarray(to_obj(t)) for t in tup], *a, **k))
        return fn(tup, *a, **k)
    return f


def _rand(shape, lo, hi):
    eng = core.ENGINE
    if shape is None or shape == ():
        return eng.fresh_uniform(lo, hi)
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    r = _obj(tuple(shape))
    rf = r.reshape(-1)
    for i in range(rf.shape[0]):
        rf[i] = eng.fresh_uniform(lo, hi)
    return SArr(r, "real")


class RandomProxy(types.ModuleType):
    """np.random: every draw is an arbitrary value in its documented range."""

    def __init__(self):
        super().__init__("symrandom")

    def random(self, size=None):
        return _rand(size, 0, 1)

    random_sample = ranf = sample = random

    def rand(self, *d):
        return _rand(d if d else None, 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        u = _rand(size, 0, 1)
        return low + (high - low) * u

    def seed(self, *a):
        pass

    def default_rng(self, *a):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise SymUnsupported("np.random.%s" % n)


_SAVETXT = np.savetxt


def _savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="",
             comments="# ", encoding=None):
    """symbolic values are written as tokens (core.TOKENS)"""
    if np.savetxt is not _SAVETXT:      # a harness records the calls
        return np.savetxt(fname, X, fmt=fmt, delimiter=delimiter)
    if not isinstance(X, (np.ndarray, list, tuple, S)) and not np.isscalar(X):
        raise ValueError("Expected 1D or 2D array, got 0D array instead")
    X = np.asarray(to_obj(X) if has_sym(X) else X)
    if X.ndim == 0 or X.ndim > 2:
        raise ValueError("Expected 1D or 2D array, got %dD array instead" % X.ndim)
    if not has_sym(X):
        return np.savetxt(fname, X, fmt, delimiter, newline, header, footer, comments, encoding)
    own = not hasattr(fname, "write")
    f = open(fname, "wb") if own else fname
    try:
        rows = X.reshape(-1, 1) if X.ndim == 1 else X
        txt = newline.join(delimiter.join(format(lift(v)) for v in r) for r in rows) + newline
        try:
            f.write(txt.encode())
        except TypeError:
            f.write(txt)
    finally:
        if own:
            f.close()


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("symnumpy")
        self.__dict__["_over"] = dict(
            zeros=p_zeros, ones=p_ones, empty=p_empty, full=p_full, eye=p_eye,
            identity=p_identity, array=p_array, asarray=p_asarray,
            asanyarray=p_asarray, ascontiguousarray=p_asarray,
            zeros_like=p_zeros_like, ones_like=p_ones_like,
            empty_like=p_empty_like, full_like=p_full_like, linspace=p_linspace,
            copy=p_copy, hstack=p_stack(np.hstack), vstack=p_stack(np.vstack),
            concatenate=p_stack(np.concatenate), stack=p_stack(np.stack),
            column_stack=p_stack(np.column_stack), block=None,
            random=RandomProxy(),
        )
        self._over.pop("block")
        for f, h in FUNCS.items():
            n = f.__name__
            if getattr(np, n, None) is f:
                self._over[n] = h
        self._over["amax"], self._over["amin"] = _f_max, _f_min
        for n in UF:
            u = getattr(np, n, None)
            if isinstance(u, np.ufunc):
                self._over.setdefault(n, _UProxy(u))
        self._over["abs"] = self._over["absolute"]
        self._over["conj"] = self._over["conjugate"]
        self._over["isneginf"] = lambda x: x == -math.inf
        self._over["isposinf"] = lambda x: x == math.inf
        self._over["savetxt"] = _savetxt
        self._over["iscomplexobj"] = lambda x: not all(
            lift(e).is_real() for e in to_obj(x).reshape(-1))

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            return o[n]
        if n == "linalg":
            return LINALG
        return getattr(np, n)


class _UProxy:
    """a ufunc that also accepts python lists of symbolic values"""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if any(isinstance(x, (S, SBool, SArr)) for x in a) or any(
                isinstance(x, (list, tuple)) and has_sym(x) for x in a):
            return handle_ufunc(self.u, "__call__", a, dict(k))
        return self.u(*a, **k)

    def __getattr__(self, n):
        m = getattr(self.u, n)
        if n in ("reduce", "outer", "accumulate"):
            def f(*a, **k):
                if any(has_sym(x) or isinstance(x, SArr) for x in a):
                    return handle_ufunc(self.u, n, a, dict(k))
                return m(*a, **k)
            return f
        return m


def _f_det(a):
    from . import stubs
    return stubs._det(to_obj(a))


class _LinalgProxy(types.ModuleType):
    def __init__(self):
        super().__init__("symlinalg")

    def __getattr__(self, n):
        from . import stubs
        o = {"norm": _f_norm, "inv": stubs.sym_inv, "eigh": stubs.np_eigh,
             "matrix_power": stubs.sym_matrix_power, "det": _f_det,
             "multi_dot": lambda ms, **k: functools.reduce(_f_dot, ms)}
        if n in o:
            return o[n]
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if any(has_sym(x) for x in a):
                raise SymUnsupported("np.linalg.%s" % n)
            return f(*a, **k)
        return g


LINALG = _LinalgProxy()
NP = NumpyProxy()


def arr(x, kind=None):
    """symbolic array from nested lists / arrays"""
    return SArr(to_obj(x), kind)


# --------------------------------------------------------------------------
# math / cmath functions of symbolic numbers
def _math_over(mod):
    eq = dict(asin="arcsin", acos="arccos", atan="arctan", fabs="abs", phase="angle",
              pow="power")

    def wrap(n):
        real = getattr(mod, n)
        name = eq.get(n, n)

        def f(*a, **k):
            if any(isinstance(x, (S, SBool)) for x in a):
                return getattr(NP, name)(*a, **k)
            return real(*a, **k)
        f.__name__ = n
        return f
    names = ["sin", "cos", "tan", "tanh", "exp", "sqrt", "floor", "ceil", "fabs", "log",
             "isinf", "isnan", "isfinite", "hypot", "pow", "phase", "atan2"]
    return {n: wrap(n) for n in names if hasattr(mod, n)
            and (hasattr(NP, eq.get(n, n)) or n == "atan2")}
