"""Environments: one harness body is run symbolically (SymEnv) and on concrete
values against the unpatched code (ConcEnv)."""
import math
import random
import numpy as np
from . import core, arr, stubs, engine
from .core import S, SBool, SymUnsupported, lift, is_num


class Found(Exception):
    """property violated"""

    def __init__(self, label, inputs=None, note="", decided=True):
        super().__init__("%s %s" % (label, note))
        self.label = label
        self.inputs = inputs
        self.note = note
        self.decided = decided


class Skip(BaseException):
    """concrete inputs outside the assumptions"""


def mat_of(x):
    """matrix content of any operator representation"""
    if isinstance(x, stubs.SQobj):
        return arr.SArr(x._m.copy())
    if isinstance(x, stubs.SData):
        return arr.SArr(x.m.copy())
    if hasattr(x, "full"):
        return x.full()
    if hasattr(x, "toarray"):
        return x.toarray()
    if hasattr(x, "to_array"):
        return x.to_array()
    return x


class Env:
    sym = False

    def rarr(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        vals = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            vals[ix] = self.real(name + "".join("_%d" % i for i in ix), lo, hi)
        return self._arr(vals, "real")

    def carr(self, name, shape):
        vals = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            vals[ix] = self.cplx(name + "".join("_%d" % i for i in ix))
        return self._arr(vals, "complex")

    def herm(self, name, n):
        m = np.empty((n, n), dtype=object)
        for i in range(n):
            m[i, i] = self.real("%s_%d_%d" % (name, i, i))
            for j in range(i + 1, n):
                z = self.cplx("%s_%d_%d" % (name, i, j))
                m[i, j] = z
                m[j, i] = z.conjugate()
        return self._arr(m, "complex")

    def ensure_eq_list(self, label, a, b):
        self.ensure(label + ":len", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq("%s[%d]" % (label, i), x, y)

    def dag(self, m):
        return m.conj().T

    def tr(self, m):
        t = 0
        for i in range(m.shape[0]):
            t = m[i, i] + t
        return t

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.ensure(label, True)
            return True
        except Exception as e:
            if isinstance(e, (SymUnsupported, Found, engine.PathLimit)):
                raise
            self.fail(label, "raised %r instead of %s" % (e, exc))
            return False
        self.fail(label, "accepted without error")
        return False

    def fail(self, label, note=""):
        self.ensure(label, False, note)

    def clip(self, x, lo, hi):
        if lo is not None and bool(x < lo):
            x = lo
        if hi is not None and bool(x > hi):
            x = hi
        return x

    def np_fn(self, name):
        return lambda x: getattr(x, name)()


class SymEnv(Env):
    sym = True

    def __init__(self, eng):
        self.e = eng
        stubs.KNOWN_EIG.clear()
        stubs.EXPM_ARGS = None
        self.Qobj = stubs.SQobj
        self.nobl = 0

    def _reg(self, name, x):
        self.e.inputs[name] = x
        return x

    def real(self, name, lo=None, hi=None):
        x = self._reg(name, core.real_input(name))
        if lo is not None:
            self.e.assume(x >= lo)
        if hi is not None:
            self.e.assume(x <= hi)
        return x

    def pos(self, name, lo=0, hi=None):
        x = self._reg(name, core.real_input(name))
        self.e.assume(x > lo)
        if hi is not None:
            self.e.assume(x <= hi)
        return x

    def int(self, name, lo, hi):
        x = self._reg(name, core.real_input(name, "int"))
        self.e.assume(x >= lo)
        self.e.assume(x <= hi)
        return x

    def cplx(self, name):
        return self._reg(name, core.cplx_input(name))

    def _arr(self, vals, kind):
        return arr.SArr(vals, kind)

    def arr(self, x, kind=None):
        if isinstance(x, np.ndarray) and x.dtype != object and kind is None:
            kind = {"f": "real", "c": "complex"}.get(x.dtype.kind)
        return arr.SArr(arr.to_obj(x).copy(), kind)

    def qobj(self, m, dims=None):
        return stubs.SQobj(m, dims=dims)

    def mat(self, x):
        x = mat_of(x)
        if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, arr.SArr):
            return arr.SArr(x)
        return x

    def known_eig(self, H, lam, V):
        """the spectral decomposition of H is (lam, V)"""
        stubs.KNOWN_EIG.append((arr.to_obj(H), arr.to_obj(lam), arr.to_obj(V)))

    def expm_args(self):
        """start recording the arguments of the matrix exponential"""
        stubs.EXPM_ARGS = []
        return stubs.EXPM_ARGS

    def expm(self, m):
        return stubs.sym_expm(m)

    def frechet(self, A, E):
        return stubs.frechet(A, E)

    def eigh(self, H):
        return stubs.herm_eig(H)

    def inv(self, m):
        return stubs.sym_inv(m)

    def assume(self, c):
        self.e.assume(c)

    def nonzero(self, x):
        self.e.require_nonzero(lift(x), spec=True)

    # ---- obligations
    def _done(self, v):
        self.nobl += 1
        if v is not None:
            raise Found(v.label, v.inputs, v.note, decided=v.inputs is not None)

    def eq(self, label, a, b, tol=None):
        a, b = self.mat(a), self.mat(b)
        sa, sb = np.shape(a), np.shape(b)
        if sa != sb:
            self._done(self.e.prove("%s: shape %s vs %s" % (label, sa, sb), False))
            return
        diffs, scales = [], []
        for x, y in zip(arr.to_obj(a).reshape(-1), arr.to_obj(b).reshape(-1)):
            if _nonfin(x) or _nonfin(y):
                if not (_nonfin(x) and _nonfin(y) and x == y):
                    self._done(self.e.prove("%s: %r vs %r" % (label, x, y), False))
                continue
            x, y = lift(x), lift(y)
            diffs.append(x - y)
            scales.append(max(1.0, x.max_coef(), y.max_coef()))
        self._done(self.e.prove_zero(label, diffs, scales))

    def ensure(self, label, cond, note=""):
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        v = self.e.prove(label, cond)
        if v is not None and note:
            v.note = note
        self._done(v)

    def abs(self, x):
        return abs(lift(x))

    def sqrt(self, x):
        return lift(x).sqrt()

    def exp(self, x):
        return lift(x).exp()

    def sin(self, x):
        return lift(x).sin()

    def cos(self, x):
        return lift(x).cos()

    def tanh(self, x):
        return core.sym_tanh(lift(x))

    def floor(self, x):
        return core.sym_floor(lift(x))

    def rnd(self, k):
        """the k-th uniform draw made on this path"""
        return self.e.inputs["rnd!%d" % k]

    def nrnd(self):
        return self.e.counters.get("rnd", 0)

    def distinct(self, tag):
        """an opaque fresh real value chosen by the environment"""
        n = "%s!%d" % (tag, self.e.count(tag))
        return self._reg(n, core.real_input(n))


def _nonfin(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x) or \
        (isinstance(x, complex) and not (math.isfinite(x.real) and math.isfinite(x.imag))) \
        or x is None


class ConcEnv(Env):
    """the same harness on the real code with concrete values"""

    def __init__(self, inputs, seed=0, tol=1e-6):
        from qutip import Qobj
        self.inputs = inputs or {}
        self.used = {}
        self.rng = random.Random(seed)
        self.Qobj = Qobj
        self.tol = tol
        self.nobl = 0
        self.counters = {}
        self.nr = 0

    def _get(self, name, lo=None, hi=None):
        if name in self.inputs:
            v = self.inputs[name]
            v = float(v.real if isinstance(v, complex) else v)
        else:
            a = -1.5 if lo is None else lo
            b = (a + 3.0 if lo is not None else 1.5) if hi is None else hi
            if lo is None and hi is not None and hi <= a:
                a = hi - 3.0
            v = self.rng.uniform(a, b)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        v = self._get(name, lo, hi)
        if (lo is not None and not v >= lo) or (hi is not None and not v <= hi):
            raise Skip()
        return v

    def pos(self, name, lo=0, hi=None):
        v = self._get(name, lo + 0.2, hi if hi is not None else lo + 2.0)
        if not v > lo or (hi is not None and not v <= hi):
            raise Skip()
        return v

    def int(self, name, lo, hi):
        if name in self.inputs:
            v = int(round(float(self.inputs[name])))
        else:
            v = self.rng.randint(lo, hi)
        self.used[name] = v
        return v

    def cplx(self, name):
        v = self.inputs.get(name)
        if v is None:
            v = complex(self.rng.uniform(-1, 1), self.rng.uniform(-1, 1))
        v = complex(v)
        self.used[name] = v
        return v

    def _arr(self, vals, kind):
        return vals.astype(complex if kind == "complex" else float)

    def arr(self, x, kind=None):
        a = np.array(x)
        if a.dtype == object:
            a = a.astype(complex)
            if not np.any(a.imag):
                a = a.real
        return a

    def qobj(self, m, dims=None):
        return self.Qobj(np.asarray(m, dtype=complex), dims=dims)

    def mat(self, x):
        x = mat_of(x)
        return x

    def known_eig(self, H, lam, V):
        pass

    def expm_args(self):
        return None

    def expm(self, m):
        import scipy.linalg as la
        return la.expm(np.asarray(m, dtype=complex))

    def frechet(self, A, E):
        import scipy.linalg as la
        return la.expm_frechet(np.asarray(A, dtype=complex), np.asarray(E, dtype=complex),
                               compute_expm=False)

    def eigh(self, H):
        return np.linalg.eigh(np.asarray(H, dtype=complex))

    def inv(self, m):
        return np.linalg.inv(m)

    def assume(self, c):
        if not c:
            raise Skip()

    def nonzero(self, x):
        if abs(x) < 1e-9:
            raise Skip()

    def eq(self, label, a, b, tol=None):
        self.nobl += 1
        a, b = self.mat(a), self.mat(b)
        if np.shape(a) != np.shape(b):
            raise Found("%s: shape %s vs %s" % (label, np.shape(a), np.shape(b)))
        a = np.asarray(a)
        b = np.asarray(b)
        if a.dtype == object or b.dtype == object:
            for x, y in zip(a.reshape(-1), b.reshape(-1)):
                if x is None or y is None:
                    if x is not y:
                        raise Found("%s: %r vs %r" % (label, x, y))
                else:
                    self.eq(label, complex(x), complex(y), tol)
            return
        if a.size == 0:
            return
        with np.errstate(all="ignore"):
            same = (a == b)
            if np.any(~same & (np.isnan(b) | (np.isinf(b) & ~np.isfinite(a)))):
                raise Skip()        # the values leave the range of floating point numbers
            d = np.where(same, 0, np.abs(np.where(same, 0, a) - np.where(same, 0, b)))
            sc = max(1.0, float(np.max(np.abs(np.where(np.isfinite(b), b, 0)))))
        d = float(np.max(np.where(np.isnan(d), np.inf, d)))
        if not d <= (tol or self.tol) * sc:
            raise Found(label, note="difference %.6g" % d)

    def ensure(self, label, cond, note=""):
        self.nobl += 1
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not cond:
            raise Found(label, note=note)

    def abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        import cmath
        return cmath.exp(x) if isinstance(x, complex) else math.exp(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def tanh(self, x):
        return math.tanh(x)

    def floor(self, x):
        return math.floor(x)

    # ---- environment randomness fed from the counterexample
    def uniform(self):
        n = "rnd!%d" % self.nr
        self.nr += 1
        v = self.inputs.get(n)
        if v is None:
            v = self.rng.uniform(0.02, 0.98)
        v = float(v)
        self.used[n] = v
        return v

    def rnd(self, k):
        return self.used["rnd!%d" % k]

    def nrnd(self):
        return self.nr

    def distinct(self, tag):
        k = self.counters.get(tag, 0)
        self.counters[tag] = k + 1
        return self._get("%s!%d" % (tag, k))


class conc_random:
    """feed numpy's global random functions from the environment"""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        e = self.env

        def rnd(size=None):
            if size is None:
                return e.uniform()
            if isinstance(size, (int, np.integer)):
                size = (size,)
            r = np.empty(size)
            rf = r.reshape(-1)
            for i in range(rf.size):
                rf[i] = e.uniform()
            return r

        def rand(*d):
            return rnd(d if d else None)

        def uniform(low=0.0, high=1.0, size=None):
            return low + (high - low) * rnd(size)

        self.old = {n: getattr(np.random, n) for n in
                    ("random", "rand", "uniform", "random_sample", "ranf", "sample")}
        for n in ("random", "random_sample", "ranf", "sample"):
            setattr(np.random, n, rnd)
        np.random.rand = rand
        np.random.uniform = uniform

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)
