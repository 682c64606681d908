"""Symbolic stand-ins for qutip / scipy entry points and module patching."""
import contextlib
import sys
import types
import itertools
import numpy as np
import z3
from . import core, arr
from .core import S, SBool, ST, QC, SymUnsupported, lift, is_num
from .arr import SArr, has_sym, to_obj, _mm, _sum_list, wrap
from .engine import make_app


# ------------------------------------------------------------------ matrices
def _const_mat(m):
    return all((not isinstance(x, S)) or x.is_const() for x in m.reshape(-1))


def _to_num(m):
    r = np.zeros(m.shape, dtype=complex)
    for i in np.ndindex(m.shape):
        x = m[i]
        r[i] = complex(x)
    return r


def _num_arr(m):
    m = np.asarray(m)
    if np.iscomplexobj(m) and not np.any(m.imag):
        m = m.real
    kind = "complex" if np.iscomplexobj(m) else "real"
    return SArr(to_obj(m), kind)


def _iszero(x):
    return (isinstance(x, S) and not x.t) or (not isinstance(x, S) and x == 0)


def _fresh_mat(tag, idx, n, m=None):
    m = n if m is None else m
    r = np.empty((n, m), dtype=object)
    atoms = []
    for i in range(n):
        for j in range(m):
            a = ST.cplx("%s%d[%d,%d]" % (tag, idx, i, j))
            atoms.append(a)
            r[i, j] = S.atom(a)
    return r, atoms


CALLS = {}
KNOWN_EIG = []      # (matrix, eigenvalues, eigenvectors) given by the harness
EXPM_ARGS = None    # list collecting the arguments of expm, when a harness asks


def note(fn):
    CALLS[fn] = CALLS.get(fn, 0) + 1


def sym_expm(A, *a, **k):
    """opaque matrix exponential; congruent in its argument"""
    M = to_obj(A)
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise ValueError("expected a square matrix")
    n = M.shape[0]
    note("expm")
    if EXPM_ARGS is not None:
        EXPM_ARGS.append(SArr(M.copy()))
    if _const_mat(M):
        import scipy.linalg as la
        return _num_arr(la.expm(_to_num(M)))
    if n % 2 == 0 and n >= 4:
        h = n // 2
        A11, A22, A21, A12 = M[:h, :h], M[h:, h:], M[h:, :h], M[:h, h:]
        if all(_iszero(x) for x in A21.reshape(-1)) and all(
                _iszero(lift(x) - y) for x, y in zip(A11.reshape(-1), A22.reshape(-1))):
            P = to_obj(sym_expm(A11))
            L = to_obj(frechet(A11, A12))
            r = np.empty((n, n), dtype=object)
            r[...] = 0
            r[:h, :h] = P
            r[h:, h:] = P
            r[:h, h:] = L
            return SArr(r)
    off = all(_iszero(M[i, j]) for i in range(n) for j in range(n) if i != j)
    if off:
        r = np.empty((n, n), dtype=object)
        r[...] = 0
        for i in range(n):
            r[i, i] = lift(M[i, i]).exp()
        return SArr(r)
    ap = make_app("expm%d" % n, list(M.reshape(-1)), lambda ix: _fresh_mat("P", ix, n))
    return SArr(ap.res.copy())


def frechet(A, E):
    """opaque Frechet derivative of expm at A in direction E"""
    A, E = to_obj(A), to_obj(E)
    n = A.shape[0]
    if all(_iszero(x) for x in E.reshape(-1)):
        r = np.empty((n, n), dtype=object)
        r[...] = 0
        return SArr(r)
    # linear in E by construction: sum_ab E_ab L_ab(A), L_ab opaque in A
    r = np.empty((n, n), dtype=object)
    r[...] = 0
    for a in range(n):
        for b in range(n):
            if _iszero(E[a, b]):
                continue
            ap = make_app("frechet%d_%d%d" % (n, a, b), list(A.reshape(-1)),
                          lambda ix: _fresh_mat("L", ix, n))
            for i in range(n):
                for j in range(n):
                    r[i, j] = ap.res[i, j] * E[a, b] + r[i, j]
    return SArr(r)


def sym_expm_frechet(A, E, method=None, compute_expm=True, check_finite=True):
    note("expm_frechet")
    A_, E_ = to_obj(A), to_obj(E)
    if A_.shape != E_.shape:
        raise ValueError("expected A and E to be the same shape")
    L = frechet(A_, E_)
    if compute_expm:
        return sym_expm(A_), L
    return L


def herm_eig(M):
    """opaque spectral decomposition of a Hermitian matrix"""
    M = to_obj(M)
    n = M.shape[0]
    for H, lam, V in KNOWN_EIG:
        if H.shape == M.shape and all(_iszero(lift(x) - y) for x, y in
                                      zip(M.reshape(-1), H.reshape(-1))):
            return SArr(lam.copy()), SArr(V.copy())

    def mk(ix):
        lam = np.empty(n, dtype=object)
        atoms = []
        for i in range(n):
            a = ST.real("lam%d[%d]" % (ix, i))
            atoms.append(a)
            lam[i] = S.atom(a)
        V, at2 = _fresh_mat("V", ix, n)
        return (lam, V), atoms + at2
    ap = make_app("eigh%d" % n, list(M.reshape(-1)), mk)
    lam, V = ap.res
    eng = core.ENGINE
    if eng is not None:
        for i in range(n - 1):
            eng.assume(lam[i] <= lam[i + 1])
    return SArr(lam.copy()), SArr(V.copy())


def sym_eigh(M, *a, **k):
    note("eigh")
    if isinstance(M, SData):
        M = M.m
    if not has_sym(M) and _const_mat(to_obj(M)):
        w, v = np.linalg.eigh(_to_num(to_obj(M)))
        return _num_arr(w), _num_arr(v)
    return herm_eig(M)


def np_eigh(M, *a, **k):
    return sym_eigh(M)


def sym_inv(A, *a, **k):
    M = to_obj(A)
    n = M.shape[0]
    note("inv")
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise ValueError("expected square matrix")
    if _const_mat(M):
        return _num_arr(np.linalg.inv(_to_num(M)))
    # exact adjugate / determinant
    d = lift(_det(M))
    di = d.inverse()
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(M, j, 0), i, 1)
            c = _det(sub) if n > 1 else S.const(1)
            r[i, j] = (lift(c) * di) if (i + j) % 2 == 0 else (-(lift(c)) * di)
    return SArr(r)


def _det(M):
    n = M.shape[0]
    if n == 1:
        return M[0, 0]
    tot = []
    for j in range(n):
        if _iszero(M[0, j]):
            continue
        sub = np.delete(M[1:, :], j, 1)
        t = lift(M[0, j]) * _det(sub)
        tot.append(t if j % 2 == 0 else -t)
    return _sum_list(tot)


def sym_matrix_power(A, k):
    M = to_obj(A)
    n = M.shape[0]
    r = to_obj(np.eye(n))
    for _ in range(k):
        r = _mm(r, M)
    return SArr(r)


def _conjT(m):
    r = np.empty((m.shape[1], m.shape[0]), dtype=object)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            x = m[i, j]
            r[j, i] = x.conjugate()
    return r


# ---------------------------------------------------------------- data layer
class SData:
    """symbolic qutip data-layer matrix"""
    __array_ufunc__ = None

    def __init__(self, m):
        self.m = to_obj(m)

    @property
    def shape(self):
        return self.m.shape

    def to_array(self):
        return SArr(self.m.copy())

    as_ndarray = to_array

    def adjoint(self):
        return SData(_conjT(self.m))

    def conj(self):
        return SData(to_obj(SArr(self.m).conj()))

    def transpose(self):
        return SData(self.m.T.copy())

    def trace(self):
        return _sum_list([self.m[i, i] for i in range(min(self.m.shape))])

    def copy(self):
        return SData(self.m.copy())

    def __matmul__(self, o):
        if not isinstance(o, SData):
            return NotImplemented
        if self.m.shape[1] != o.m.shape[0]:
            raise ValueError("incompatible shapes %s @ %s" % (self.m.shape, o.m.shape))
        return SData(_mm(self.m, o.m))

    def __mul__(self, o):
        if isinstance(o, S) or is_num(o):
            return SData(_scale(self.m, o))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SData(_scale(self.m, 1 / lift(o)))

    def __add__(self, o):
        return SData(_addm(self.m, o.m))

    def __sub__(self, o):
        return SData(_addm(self.m, _scale(o.m, -1)))

    def __neg__(self):
        return SData(_scale(self.m, -1))


def _scale(m, c):
    r = np.empty(m.shape, dtype=object)
    for i in np.ndindex(m.shape):
        x = m[i]
        r[i] = 0 if _iszero(x) else (x * c if isinstance(x, S) or not isinstance(c, S) else c * x)
    return r


def _addm(a, b):
    if a.shape != b.shape:
        raise ValueError("incompatible shapes")
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        r[i] = a[i] + b[i]
    return r


def _any_basis(w, v):
    """the general eigenproblem does not promise orthogonal eigenvectors of equal
    eigenvalues: return some other normalised ones"""
    n = len(w)
    for i in range(n):
        for j in range(i + 1, n):
            if bool(abs(w[i] - w[j]) < 1e-12):
                v[:, j] = v[:, i] * 0.6 + v[:, j] * 0.8


class _ConcData(types.ModuleType):
    """replay: the same freedom for the real eigensolver"""

    def __init__(self, real):
        super().__init__("concdata")
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def eigs(self, d, isherm=None, *a, **k):
        if isherm is None or isherm:
            return self._real.eigs(d, isherm, *a, **k)
        w, v = np.linalg.eigh(d.to_array())
        v = v.astype(complex)
        _any_basis(w, v)
        return w, self._real.create(v)


class _DataProxy(types.ModuleType):
    def __init__(self, real):
        super().__init__("symdata")
        self.__dict__["_real"] = real

    def eigs(self, d, isherm=None, *a, **k):
        if isinstance(d, SData):
            w, v = sym_eigh(d)
            if isherm is not None and not isherm:
                v = to_obj(v).copy()
                _any_basis(w, v)
                v = SArr(v)
            return w, SData(v)
        return self._real.eigs(d, isherm, *a, **k)

    def to(self, t, d=None):
        if isinstance(d, SData):
            return d
        return self._real.to(t, d) if d is not None else self._real.to(t)

    def adjoint(self, d):
        return d.adjoint() if isinstance(d, SData) else self._real.adjoint(d)

    def conj(self, d):
        return d.conj() if isinstance(d, SData) else self._real.conj(d)

    def transpose(self, d):
        return d.transpose() if isinstance(d, SData) else self._real.transpose(d)

    def trace(self, d):
        return d.trace() if isinstance(d, SData) else self._real.trace(d)

    def matmul(self, a, b):
        return a @ b

    def add(self, a, b, s=1):
        return a + b * s

    def mul(self, a, s):
        return a * s

    def expm(self, a):
        return SData(sym_expm(a.m))

    def trace_oper_ket(self, d):
        raise SymUnsupported("trace_oper_ket")

    def inner(self, a, b):
        return (a.adjoint() @ b).m[0, 0]

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


class _DenseCls:
    pass


# ----------------------------------------------------------------------- Qobj
def _prod(x):
    r = 1
    for i in x:
        r *= _prod(i) if isinstance(i, list) else i
    return r


class SQobj:
    """dense symbolic quantum object with qutip's arithmetic and dims rules"""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, arg=None, dims=None, copy=True, superrep=None, isherm=None,
                 isunitary=None, dtype=None):
        if isinstance(arg, SQobj):
            m = arg._m
            if dims is None:
                dims = arg.dims
        elif isinstance(arg, SData):
            m = arg.m
        else:
            if hasattr(arg, "full") and not isinstance(arg, np.ndarray):
                if dims is None:
                    dims = arg.dims
                arg = arg.full()
            m = to_obj(arg)
        if m.ndim == 1:
            m = m.reshape(-1, 1)
        if m.ndim == 0:
            m = m.reshape(1, 1)
        if m.ndim != 2:
            raise ValueError("bad Qobj shape %s" % (m.shape,))
        self._m = m.copy()
        n, k = m.shape
        if dims is None:
            dims = [[n], [k]]
        dims = [list(dims[0]), list(dims[1])]
        if _prod(dims[0]) != n or _prod(dims[1]) != k:
            raise ValueError("provided dims %s incompatible with shape %s"
                             % (dims, m.shape))
        self.dims = dims

    @property
    def shape(self):
        return self._m.shape

    @property
    def data(self):
        return SData(self._m.copy())

    @property
    def dtype(self):
        return _DenseCls

    @property
    def isket(self):
        return self._m.shape[1] == 1 and self.dims[1] in ([1],) and self._m.shape[0] > 1

    @property
    def isbra(self):
        return self._m.shape[0] == 1 and self._m.shape[1] > 1

    @property
    def isoper(self):
        return not self.isket and not self.isbra

    @property
    def type(self):
        return "ket" if self.isket else ("bra" if self.isbra else "oper")

    @property
    def isherm(self):
        if self._m.shape[0] != self._m.shape[1]:
            return False
        d = _addm(self._m, _scale(_conjT(self._m), -1))
        return all(bool(lift(x) == 0) for x in d.reshape(-1))

    @property
    def isunitary(self):
        if self._m.shape[0] != self._m.shape[1]:
            return False
        p = _mm(self._m, _conjT(self._m))
        for i in range(p.shape[0]):
            for j in range(p.shape[0]):
                if not bool(lift(p[i, j]) == (1 if i == j else 0)):
                    return False
        return True

    def full(self, *a, **k):
        return SArr(self._m.copy())

    def __array__(self, *a, **k):
        raise SymUnsupported("np.array(Qobj)")

    def tr(self):
        return _sum_list([self._m[i, i] for i in range(min(self._m.shape))])

    def dag(self):
        return SQobj(_conjT(self._m), dims=[self.dims[1], self.dims[0]])

    def conj(self):
        return SQobj(SArr(self._m).conj(), dims=self.dims)

    def trans(self):
        return SQobj(self._m.T.copy(), dims=[self.dims[1], self.dims[0]])

    def copy(self):
        return SQobj(self._m, dims=self.dims)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def expm(self, *a, **k):
        if self._m.shape[0] != self._m.shape[1]:
            raise TypeError("expm is only valid for square operators")
        return SQobj(sym_expm(self._m), dims=self.dims)

    def inv(self, *a, **k):
        return SQobj(sym_inv(self._m), dims=[self.dims[1], self.dims[0]])

    def norm(self, *a, **k):
        raise SymUnsupported("Qobj.norm")

    def to(self, *a, **k):
        return self

    def tidyup(self, *a, **k):
        return self

    def overlap(self, o):
        return (self.dag() * o) if self.isket else (self.dag() * o).tr()

    def __getitem__(self, ix):
        return SArr(self._m)[ix]

    def _matmul(self, o):
        if self._m.shape[1] != o._m.shape[0] or self.dims[1] != o.dims[0]:
            raise TypeError("incompatible dimensions %s and %s" % (self.dims, o.dims))
        m = _mm(self._m, o._m)
        if m.shape == (1, 1):
            return lift(m[0, 0])
        return SQobj(m, dims=[self.dims[0], o.dims[1]])

    def __matmul__(self, o):
        if isinstance(o, SQobj):
            return self._matmul(o)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, SQobj):
            return self._matmul(o)
        if isinstance(o, S) or is_num(o):
            return SQobj(_scale(self._m, o), dims=self.dims)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self * o[()]
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, S) or is_num(o):
            return SQobj(_scale(self._m, o), dims=self.dims)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self * o[()]
        return NotImplemented

    def __truediv__(self, o):
        return SQobj(_scale(self._m, 1 / lift(o)), dims=self.dims)

    def __neg__(self):
        return SQobj(_scale(self._m, -1), dims=self.dims)

    def _lift_add(self, o):
        if isinstance(o, SQobj):
            return o
        if (isinstance(o, S) or is_num(o)):
            if _iszero(o):
                return None
            if self._m.shape[0] == self._m.shape[1]:
                return SQobj(_scale(to_obj(np.eye(self._m.shape[0])), o), dims=self.dims)
        return NotImplemented

    def __add__(self, o):
        o = self._lift_add(o)
        if o is None:
            return self.copy()
        if o is NotImplemented:
            return o
        if o.dims != self.dims:
            raise ValueError("incompatible dimensions %s and %s" % (self.dims, o.dims))
        return SQobj(_addm(self._m, o._m), dims=self.dims)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._lift_add(o)
        if o is None:
            return self.copy()
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __pow__(self, n):
        r = SQobj(np.eye(self._m.shape[0]), dims=self.dims)
        for _ in range(n):
            r = r * self
        return r

    def __eq__(self, o):
        if not isinstance(o, SQobj) or self.dims != o.dims:
            return False
        return all(bool(lift(x) == y) for x, y in zip(self._m.reshape(-1), o._m.reshape(-1)))

    __hash__ = None

    def __repr__(self):
        return "<SQobj %s>" % (self.dims,)

    __str__ = __repr__

    def __format__(self, spec):
        if spec:
            raise TypeError("unsupported format string passed to Qobj.__format__")
        return repr(self)

    def __getattr__(self, n):
        if n.startswith("__") or n in ("dot",):
            raise AttributeError(n)
        raise SymUnsupported("Qobj.%s" % n)


def sym_qeye(dims=2, *a, **k):
    if isinstance(dims, (int, np.integer)):
        dims = [int(dims)]
    dims = list(dims)
    return SQobj(np.eye(_prod(dims)), dims=[dims, dims])


# ------------------------------------------------------------- scipy proxies
class _ModProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__("sym_" + real.__name__.replace(".", "_"))
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            return o[n]
        f = getattr(self.__dict__["_real"], n)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                if any(has_sym(x) or isinstance(x, (SQobj, SData)) for x in a):
                    raise SymUnsupported("%s.%s" % (self.__name__, n))
                return f(*a, **k)
            return g
        return f


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, x=0.0):
        if isinstance(x, S):
            return x if x.is_real() else _bad_float()
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size == 1:
                return cls(x.reshape(-1)[0])
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(x)


def _bad_float():
    raise TypeError("can't convert complex to float")


class SymFloat(metaclass=_FloatMeta):
    _sym_float = True


# ----------------------------------------------------------------- patching
def default_map():
    import scipy.linalg as la
    import scipy.sparse as sp
    import qutip
    from qutip import Qobj
    from qutip.core import data as _data
    from qutip.core.data.eigen import eigh
    LA = _ModProxy(la, dict(expm=sym_expm, expm_frechet=sym_expm_frechet, inv=sym_inv,
                            eigh=sym_eigh, norm=arr._f_norm, block_diag=_blockdiag))
    m = [
        (np, arr.NP), (np.linalg, arr.LINALG), (np.random, arr.NP.random),
        (la, LA), (la.expm, sym_expm), (la.expm_frechet, sym_expm_frechet),
        (la.inv, sym_inv), (la.eigh, sym_eigh), (Qobj, SQobj), (_data, _DataProxy(_data)),
        (eigh, sym_eigh), (qutip.qeye, sym_qeye),
    ]
    import cmath
    import math
    for mod in (math, cmath):
        mo = arr._math_over(mod)
        m.append((mod, _ModProxy(mod, mo)))
        m.extend((getattr(mod, n), f) for n, f in mo.items())
    over = arr.NP.__dict__["_over"]
    for n, f in over.items():
        r = getattr(np, n, None)
        if r is not None and n != "random":
            m.append((r, f))
    return m


def _blockdiag(*ms):
    ms = [to_obj(x) for x in ms]
    n = sum(x.shape[0] for x in ms)
    k = sum(x.shape[1] for x in ms)
    r = np.empty((n, k), dtype=object)
    r[...] = 0
    i = j = 0
    for x in ms:
        r[i:i + x.shape[0], j:j + x.shape[1]] = x
        i += x.shape[0]
        j += x.shape[1]
    return SArr(r)


def qtrl_modules():
    return [m for n, m in sorted(sys.modules.items())
            if n.startswith("qutip_qtrl") and m is not None]


@contextlib.contextmanager
def patched(extra=(), symbolic=True):
    """replace module globals of the code under test by identity.
    extra: pairs (real object, replacement)"""
    mp = {}
    keep = []
    if symbolic:
        for a, b in default_map():
            mp[id(a)] = b
            keep.append(a)
    else:
        import qutip.core.data as _data
        mp[id(_data)] = _ConcData(_data)
        keep.append(_data)
    for a, b in extra:
        mp[id(a)] = b
        keep.append(a)
    undo = []
    try:
        for mod in qtrl_modules():
            d = mod.__dict__
            for k in list(d):
                if k.startswith("__"):
                    continue
                r = mp.get(id(d[k]))
                if r is not None:
                    undo.append((d, k, d[k], True))
                    d[k] = r
            if symbolic and "float" not in d:
                undo.append((d, "float", None, False))
                d["float"] = SymFloat
        yield
    finally:
        for d, k, v, had in reversed(undo):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
