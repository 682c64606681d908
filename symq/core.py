"""Symbolic scalars for executing real numpy code.

A symbolic scalar ``S`` is a Laurent polynomial with Gaussian-rational
coefficients over *atoms*.  Atoms are real / integer unknowns, complex unknowns
(a pair z, conj z), unit-modulus unknowns (exp(i x)) and function atoms (square
roots, reciprocals, exponentials, floors, ...), the latter carrying SMT axioms.
The polynomial normal form is only a canonical term representation; every branch
decision and every assertion is decided by z3 over the (re, im) translation.
"""

import math
import sys
from fractions import Fraction
import numbers

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
import numpy as np  # noqa: E402


class SymUnsupported(Exception):
    """The symbolic engine met an operation it does not model."""


# --------------------------------------------------------------------------
# coefficients: int | Fraction | QC (only when the imaginary part is nonzero)
class QC:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __eq__(self, o):
        return isinstance(o, QC) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return "(%s%+si)" % (self.re, self.im)


def _qn(re, im):
    return re if im == 0 else QC(re, im)


def cadd(a, b):
    ta, tb = type(a) is QC, type(b) is QC
    if not ta and not tb:
        return a + b
    ar, ai = (a.re, a.im) if ta else (a, 0)
    br, bi = (b.re, b.im) if tb else (b, 0)
    return _qn(ar + br, ai + bi)


def cmul(a, b):
    ta, tb = type(a) is QC, type(b) is QC
    if not ta and not tb:
        return a * b
    if ta and tb:
        return _qn(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    if ta:
        return _qn(a.re * b, a.im * b)
    return _qn(a * b.re, a * b.im)


def cconj(a):
    return QC(a.re, -a.im) if type(a) is QC else a


def cinv(a):
    if type(a) is QC:
        n = a.re * a.re + a.im * a.im
        return _qn(Fraction(a.re) / n, Fraction(-a.im) / n)
    f = Fraction(1) / a
    return f.numerator if f.denominator == 1 else f


def cabs(a):
    if type(a) is QC:
        return math.hypot(float(a.re), float(a.im))
    return abs(float(a))


_PIQ = Fraction(math.pi)


def to_q(x):
    """Rational for a python/numpy real. Floats that are a small rational up to
    1e-15 relative are read as that rational (floats are modelled as reals)."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    x = float(x)
    if x == int(x) and abs(x) < 1e15:
        return int(x)
    f = Fraction(x)
    g = f.limit_denominator(100000)
    if abs(f - g) <= abs(f) * Fraction(1, 10 ** 15):
        return g
    return f


# --------------------------------------------------------------------------
class Atom:
    __slots__ = (
        "id", "kind", "name", "conj", "key", "func", "args", "_z3", "axioms",
        "sq", "_ax", "pair", "nonneg", "inv_z3", "nonzero",
    )

    # kind: real int unit cplx(z) cbar(conj z)
    def __init__(self, id, kind, name):
        self.id = id
        self.kind = kind
        self.name = name
        self.conj = id
        self.func = None      # (fname, key) for function atoms
        self.args = ()        # polynomials this atom depends on
        self.axioms = None    # callable -> list of z3 constraints
        self._ax = None
        self.sq = None        # S with atom**2 == sq
        self._z3 = None
        self.inv_z3 = None
        self.nonneg = False
        self.nonzero = False


class Store:
    """All atoms of one check process; function atoms are interned by key."""

    def __init__(self):
        self.atoms = []
        self.names = {}
        self.funcs = {}
        self.z3inv = {}

    def _new(self, kind, name):
        a = Atom(len(self.atoms), kind, name)
        self.atoms.append(a)
        return a

    def real(self, name, kind="real"):
        a = self.names.get(name)
        if a is None:
            a = self._new(kind, name)
            self.names[name] = a
        return a

    def cplx(self, name):
        a = self.names.get(name)
        if a is None:
            a = self._new("cplx", name)
            b = self._new("cbar", name + "~")
            a.conj, b.conj = b.id, a.id
            self.names[name] = a
        return a

    def func(self, fname, key, kind, args=(), build=None):
        k = (fname, key)
        a = self.funcs.get(k)
        if a is None:
            n = "%s!%d" % (fname, len(self.atoms))
            if kind == "cplx":
                a = self.cplx(n)
            else:
                a = self._new(kind, n)
            a.func = k
            a.args = tuple(args)
            self.funcs[k] = a
            if build is not None:
                build(a)
        return a


ST = Store()


def atom_z3(a):
    """(re, im) z3 terms of an atom (im None when real)."""
    if a._z3 is None:
        if a.kind == "int":
            a._z3 = (z3.ToReal(z3.Int(a.name)), None)
        elif a.kind == "real":
            a._z3 = (z3.Real(a.name), None)
        elif a.kind == "unit":
            a._z3 = (z3.Real(a.name + ".c"), z3.Real(a.name + ".s"))
        elif a.kind == "cplx":
            a._z3 = (z3.Real(a.name + ".re"), z3.Real(a.name + ".im"))
        elif a.kind == "cbar":
            r, i = atom_z3(ST.atoms[a.conj])
            a._z3 = (r, -i)
    return a._z3


def atom_axioms(a):
    if a._ax is None:
        out = []
        if a.kind == "unit":
            c, s = atom_z3(a)
            out.append(c * c + s * s == 1)
        if a.axioms is not None:
            out.extend(a.axioms(a))
        a._ax = out
    return a._ax


def inv_term(a):
    if a.inv_z3 is None:
        a.inv_z3 = z3.Real(a.name + ".inv")
    return a.inv_z3


def rv(q):
    if isinstance(q, int):
        return z3.RealVal(q)
    return z3.RealVal("%d/%d" % (q.numerator, q.denominator))


# --------------------------------------------------------------------------
ENGINE = None  # current path engine (set by engine.py)


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        s = d.get(k, 0) + e
        if s:
            d[k] = s
        else:
            del d[k]
    return tuple(sorted(d.items()))


_NUMTYPES = (int, float, complex, Fraction, np.number, np.bool_)


def is_num(x):
    return isinstance(x, _NUMTYPES)


TOKENS = None       # values written as text, when a harness reads files back


class S(object):
    __slots__ = ("t", "_z", "_key", "_sq", "_unit", "__weakref__")
    __array_priority__ = 1000.0

    def __init__(self, t):
        self.t = t
        self._z = None
        self._key = None
        self._sq = None
        self._unit = False

    # ---- constructors
    @staticmethod
    def const(x):
        if isinstance(x, S):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            if not (math.isfinite(x.real) and math.isfinite(x.imag)):
                raise SymUnsupported("non-finite complex constant")
            c = _qn(to_q(x.real), to_q(x.imag))
        elif is_num(x):
            if isinstance(x, (float, np.floating)) and not math.isfinite(x):
                raise SymUnsupported("non-finite constant %r in arithmetic" % x)
            c = to_q(x)
        else:
            raise SymUnsupported("cannot lift %r" % (type(x),))
        return S({(): c} if c != 0 else {})

    @staticmethod
    def atom(a, e=1):
        return S({((a.id, e),): 1})

    # ---- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items(), key=lambda kv: kv[0]))
        return self._key

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def is_real(self):
        if all(type(c) is not QC for c in self.t.values()):
            ok = True
            for m in self.t:
                for a, _ in m:
                    if ST.atoms[a].kind not in ("real", "int"):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return True
        d = self - self.conjugate()
        if not d.t:
            return True
        return d.max_coef() <= 1e-12 * max(1e-300, self.max_coef())

    def max_coef(self):
        return max((cabs(c) for c in self.t.values()), default=0.0)

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not isinstance(o, S):
            r = _special_add(self, o)
            if r is not None:
                return r
            o = S.const(o)
        a, b = self.t, o.t
        if not b:
            return self
        if not a:
            return o
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        for m, c in b.items():
            x = d.get(m)
            if x is None:
                d[m] = c
            else:
                x = cadd(x, c)
                if x == 0:
                    del d[m]
                else:
                    d[m] = x
        return S(d)

    __radd__ = __add__

    def __neg__(self):
        return S({m: cmul(c, -1) for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not isinstance(o, S):
            if not is_num(o):
                return NotImplemented
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, S):
            if not is_num(o):
                return NotImplemented
            if isinstance(o, (float, np.floating)) and math.isnan(o):
                return float("nan")
            if isinstance(o, (float, np.floating)) and math.isinf(o):
                if self > 0:
                    return float(o)
                if self < 0:
                    return -float(o)
                return float("nan")
            o = S.const(o)
        a, b = self.t, o.t
        if not a or not b:
            return S({})
        if len(a) * len(b) > MUL_LIMIT and len(a) > 8 and len(b) > 8:
            return compress(self) * compress(o)
        if len(a) < len(b):
            a, b = b, a
        d = {}
        for m2, c2 in b.items():
            for m1, c1 in a.items():
                m = _mono_mul(m1, m2)
                c = cmul(c1, c2)
                x = d.get(m)
                if x is None:
                    d[m] = c
                else:
                    x = cadd(x, c)
                    if x == 0:
                        del d[m]
                    else:
                        d[m] = x
        return _reduce(S(d))

    __rmul__ = __mul__

    def inverse(self):
        if self._unit:              # modulus one by construction
            r = self.conjugate()
            r._unit = True
            return r
        if not self.t:
            raise ZeroDivisionError("symbolic division by zero")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            for a, e in m:
                at = ST.atoms[a]
                if at.kind != "unit" and not at.nonzero and ENGINE is not None:
                    ENGINE.require_nonzero(S.atom(at))
            return _reduce(S({tuple((a, -e) for a, e in m): cinv(c)}))
        # several terms: canonical reciprocal atom
        lead = min(self.t)
        lc = self.t[lead]
        nrm = S({m: cmul(c, cinv(lc)) for m, c in self.t.items()})
        if ENGINE is not None:
            ENGINE.require_nonzero(nrm)
        real = nrm.is_real()

        def build(a):
            def ax(a, nrm=nrm, real=real):
                zr, zi = to_z3(nrm)
                ar, ai = atom_z3(a)
                if real:
                    return [zr * ar == 1]
                return [zr * ar - zi * ai == 1, zr * ai + zi * ar == 0]
            a.axioms = ax
            a.nonzero = True
        a = ST.func("inv", nrm.key(), "real" if real else "cplx", (nrm,), build)
        return S.atom(a) * S({(): cinv(lc)})

    def __truediv__(self, o):
        if not isinstance(o, S):
            if not is_num(o):
                return NotImplemented
            if isinstance(o, (float, np.floating)) and math.isinf(o):
                return S({})
            if o == 0:
                if isinstance(o, np.number):
                    if self > 0:
                        return float("inf")
                    if self < 0:
                        return float("-inf")
                    return float("nan")
                raise ZeroDivisionError("float division by zero")
            o = S.const(o)
        if o.is_const():
            c = o.const_value()
            if c == 0:
                raise ZeroDivisionError("symbolic division by zero")
            i = cinv(c)
            return S({m: cmul(x, i) for m, x in self.t.items()})
        if self.key() == o.key():
            if ENGINE is not None:
                ENGINE.require_nonzero(o)
            return S({(): 1})
        if 1 < len(o.t) <= 6 and 1 < len(self.t) <= 60:
            q = exact_div(self, o)
            if q is not None:
                if ENGINE is not None:
                    ENGINE.require_nonzero(o)
                return q
        return self * o.inverse()

    def __rtruediv__(self, o):
        return S.const(o) / self

    def __pow__(self, n):
        if isinstance(n, S):
            if n.is_const():
                n = n.const_value()
            else:
                raise SymUnsupported("symbolic exponent")
        if isinstance(n, (float, np.floating)) and n == int(n):
            n = int(n)
        if isinstance(n, (float, np.floating)) and n == 0.5:
            return self.sqrt()
        n = int(n)
        if n < 0:
            return (self ** (-n)).inverse()
        if n and n % 2 == 0 and self._sq is not None:
            return self._sq ** (n // 2)
        r = S({(): 1})
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __rpow__(self, o):
        raise SymUnsupported("symbolic exponent")

    def __floordiv__(self, o):
        return (self / o).floor()

    def __mod__(self, o):
        return self - (self / o).floor() * o

    def __rmod__(self, o):
        return S.const(o) - (S.const(o) / self).floor() * self

    # ---- complex structure
    def conjugate(self):
        d = {}
        for m, c in self.t.items():
            if m:
                mm = []
                ch = False
                for a, e in m:
                    at = ST.atoms[a]
                    k = at.kind
                    if k == "unit":
                        mm.append((a, -e))
                        ch = True
                    elif k == "cplx" or k == "cbar":
                        mm.append((at.conj, e))
                        ch = True
                    else:
                        mm.append((a, e))
                m = tuple(sorted(mm)) if ch else m
            d[m] = cconj(c)
        return S(d)

    conj = conjugate

    @property
    def real(self):
        if self.is_const():
            c = self.const_value()
            return S.const(0) + (c.re if type(c) is QC else c)
        return (self + self.conjugate()) * S({(): Fraction(1, 2)})

    @property
    def imag(self):
        return (self - self.conjugate()) * S({(): QC(0, Fraction(-1, 2))})

    # ---- functions
    def sqrt(self):
        if self.is_const():
            c = self.const_value()
            return S.const(_sqrt_const(c))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if all(e % 2 == 0 for _, e in m) and type(c) is not QC and c > 0 \
                    and all(ST.atoms[a].kind in ("real", "int") for a, _ in m):
                r = S.const(_sqrt_const(c))
                h = S({tuple((a, e // 2) for a, e in m): 1})
                if all(ST.atoms[a].nonneg for a, _ in m):
                    return r * h
                return r * abs(h)
        lead = min(self.t)
        lc = self.t[lead]
        if type(lc) is QC:
            raise SymUnsupported("sqrt of complex")
        sc = abs(lc)
        nrm = S({m: cmul(c, cinv(sc)) for m, c in self.t.items()})

        def build(a):
            a.sq = nrm
            a.nonneg = True

            def ax(a, nrm=nrm):
                zr, _ = to_z3(nrm)
                r, _ = atom_z3(a)
                return [r >= 0, r * r == zr,
                        z3.Implies(zr != 0, r > 0)]
            a.axioms = ax
        a = ST.func("sqrt", nrm.key(), "real", (nrm,), build)
        return S.atom(a) * S.const(_sqrt_const(sc))

    def __abs__(self):
        if self._unit:
            return S.const(1)
        if self.is_const():
            c = self.const_value()
            if type(c) is QC:
                return S.const(_sqrt_const(c.re * c.re + c.im * c.im))
            return S.const(abs(c))
        if self.is_real():
            if len(self.t) == 1:
                (m, c), = self.t.items()
                if all(ST.atoms[a].nonneg or
                       (e % 2 == 0 and ST.atoms[a].kind in ("real", "int"))
                       for a, e in m):
                    return self if c > 0 else -self
            # one decision for x and -x
            m = min(self.t, key=lambda m: (not m, m))
            n = -self if self.t[m] < 0 else self
            return n if bool(n >= 0) else -n
        # purely imaginary: |i x| = |x|
        mi = self * S({(): QC(0, -1)})
        if mi.is_real():
            return abs(mi)
        q = self * self.conjugate()
        r = q.sqrt()
        r._sq = q               # exact, also where the root of a factor is rounded
        return r

    def exp(self):
        return sym_exp(self)

    def angle_unit(self):
        """exp(-i*angle(self)) as conj(self)/|self|."""
        r = abs(self)
        if isinstance(r, S) and ENGINE is not None:
            ENGINE.require_nonzero(r)
        return self.conjugate() / r

    def sin(self):
        if OPAQUE and not self.is_const():
            return sym_opaque("sin", self)
        ip = sym_exp(self * S({(): QC(0, 1)}))
        im = sym_exp(self * S({(): QC(0, -1)}))
        return (ip - im) * S({(): QC(0, Fraction(-1, 2))})

    def cos(self):
        if OPAQUE and not self.is_const():
            return sym_opaque("cos", self)
        ip = sym_exp(self * S({(): QC(0, 1)}))
        im = sym_exp(self * S({(): QC(0, -1)}))
        return (ip + im) * S({(): Fraction(1, 2)})

    def tanh(self):
        return sym_tanh(self)

    def floor(self):
        return sym_floor(self)

    def ceil(self):
        return -sym_floor(-self)

    def log(self):
        raise SymUnsupported("log")

    def square(self):
        return self * self

    def isnan(self):
        return False

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise SymUnsupported("pickling a symbolic value")

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(float) if self.is_real() else np.dtype(complex)

    # numpy scalars expose .T/.flat etc rarely; not modelled

    # ---- comparisons
    def _cmp(self, o, op):
        if not isinstance(o, S):
            if o is None:
                raise TypeError("'%s' not supported with None" % op)
            if not is_num(o):
                return NotImplemented
            if isinstance(o, (float, np.floating)):
                if math.isnan(o):
                    return False
                if math.isinf(o):
                    return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0}[op]
            o = S.const(o)
        d = self - o
        if d.is_const():
            c = d.const_value()
            if type(c) is QC:
                c = c.re
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        if not d.is_real():
            raise SymUnsupported("ordering of complex values")
        re, _ = to_z3(d)
        e = {"<": re < 0, "<=": re <= 0, ">": re > 0, ">=": re >= 0}[op]
        return SBool(e, d.atoms())

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not isinstance(o, S):
            if not is_num(o):
                return False
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return False
            o = S.const(o)
        d = self - o
        if d.is_const():
            return d.const_value() == 0
        re, im = to_z3(d)
        e = (re == 0) if im is None else z3.And(re == 0, im == 0)
        return SBool(e, d.atoms())

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (~r) if isinstance(r, SBool) else (not r)

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            c = self.const_value()
            if type(c) is not QC:
                return float(c)
        raise SymUnsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            c = self.const_value()
            if type(c) is not QC:
                return int(c)
        raise SymUnsupported("int() of a symbolic value")

    __index__ = None

    def __complex__(self):
        if self.is_const():
            c = self.const_value()
            return complex(c.re, c.im) if type(c) is QC else complex(c)
        raise SymUnsupported("complex() of a symbolic value")

    def __repr__(self):
        if TOKENS is not None:
            return self.token()
        return "<sym %d terms>" % len(self.t)

    def __format__(self, spec):
        return self.token() if TOKENS is not None else "<sym>"

    def token(self):
        """text that stands for this value in written files"""
        TOKENS.append(self)
        return "<sym%d>" % (len(TOKENS) - 1)

    # ---- numpy interop
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.handle_ufunc(ufunc, method, inputs, kw)

    def dump(self, lim=6):
        out = []
        for m, c in list(self.key())[:lim]:
            out.append("%s*%s" % (c, "*".join(
                "%s^%d" % (ST.atoms[a].name, e) if e != 1 else ST.atoms[a].name
                for a, e in m) or "1"))
        return " + ".join(out) + (" ..." if len(self.t) > lim else "")


MUL_LIMIT = 6000


def compress(s):
    """name a large polynomial by a definitional atom (interned, canonical up to
    its leading coefficient)"""
    if len(s.t) < 2:
        return s
    lead = min(s.t)
    lc = s.t[lead]
    nrm = S({m: cmul(c, cinv(lc)) for m, c in s.t.items()})
    real = nrm.is_real()
    a = ST.func("def", nrm.key(), "real" if real else "cplx", (nrm,))
    return S({((a.id, 1),): lc})


def expand_defs(s, limit=400000):
    """substitute definitional atoms back (None when over the limit)"""
    global MUL_LIMIT
    old = MUL_LIMIT
    MUL_LIMIT = 10 ** 9
    try:
        for _ in range(6):
            hit = False
            out = S({})
            for m, c in s.t.items():
                cur = S({(): c})
                rest = []
                for a, e in m:
                    at = ST.atoms[a]
                    base = ST.atoms[at.conj] if at.kind == "cbar" else at
                    if base.func is not None and base.func[0] == "def" and e > 0:
                        hit = True
                        d = base.args[0]
                        if at.kind == "cbar":
                            d = d.conjugate()
                        for _i in range(e):
                            if len(cur.t) * len(d.t) > limit:
                                return None
                            cur = cur * d
                    else:
                        rest.append((a, e))
                out = out + (cur * S({tuple(rest): 1}) if rest else cur)
                if len(out.t) > limit:
                    return None
            s = out
            if not hit:
                return s
        return s
    finally:
        MUL_LIMIT = old


def _special_add(s, o):
    if isinstance(o, (float, np.floating)) and not math.isfinite(o):
        return float(o)
    if not is_num(o):
        return NotImplemented
    return None


def _sqrt_const(c):
    if type(c) is QC:
        raise SymUnsupported("sqrt of complex constant")
    f = Fraction(c)
    if f < 0:
        return float("nan")
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return math.sqrt(f)


def _reduce(s):
    """apply r**2 -> sq for square-root atoms."""
    for m in s.t:
        for a, e in m:
            if e >= 2 and ST.atoms[a].sq is not None:
                break
        else:
            continue
        break
    else:
        return s
    out = S({})
    for m, c in s.t.items():
        cur = None
        rest = []
        for a, e in m:
            at = ST.atoms[a]
            if e >= 2 and at.sq is not None:
                f = at.sq ** (e // 2)
                cur = f if cur is None else cur * f
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        term = S({tuple(rest): c})
        out = out + (term if cur is None else term * cur)
    return out


# --------------------------------------------------------------------------
OPAQUE_LIMIT = 400
_OPQ = {}


def _cost(s):
    """number of real monomials in the (re, im) expansion"""
    n = 0
    for m in s.t:
        k = 0
        for a, e in m:
            if ST.atoms[a].kind not in ("real", "int"):
                k += abs(e)
        n += 1 << min(k, 20)
    return n


EXPAND_LIMIT = 0
_MONO = {}


def _mono_z3(m):
    """(re, im) of a monomial of degree > 1 as unknowns, the same for its conjugate"""
    v = _MONO.get(m)
    if v is None:
        (mc, c), = S({m: 1}).conjugate().t.items()
        n = len(_MONO)
        re = z3.Real("mono%d" % n)
        if mc == m:
            v = (re, None)
        else:
            im = z3.Real("mono%d.im" % n)
            v = (re, im)
            _MONO[mc] = (re, -im)
        _MONO[m] = v
    return v


def _expand_poly(s):
    """over-large polynomials as linear terms over unknowns, one per monomial"""
    res, ims = [], []
    for m, c in s.t.items():
        cr, ci = (c.re, c.im) if type(c) is QC else (c, 0)
        if not m:
            re, im = rv(1), None
        elif len(m) == 1 and m[0][1] == 1:
            re, im = to_z3(S({m: 1}))
        else:
            re, im = _mono_z3(m)
        if cr != 0:
            res.append(re * rv(cr))
            if im is not None:
                ims.append(im * rv(cr))
        if ci != 0:
            ims.append(re * rv(ci))
            if im is not None:
                res.append(im * rv(-ci))
    z = z3.RealVal(0)
    return (z3.Sum(*res) if len(res) > 1 else (res + [z])[0],
            None if s.is_real() else (z3.Sum(*ims) if len(ims) > 1 else (ims + [z])[0]))


def _opaque_poly(s):
    """over-large polynomials become an unconstrained unknown per polynomial
    (an over-approximation: only unsat answers are used as proofs)"""
    lead = min(s.t)
    lc = s.t[lead]
    nrm = S({m: cmul(c, cinv(lc)) for m, c in s.t.items()})
    k = nrm.key()
    v = _OPQ.get(k)
    if v is None:
        n = len(_OPQ)
        if nrm.is_real():
            v = (z3.Real("poly%d" % n), None)
        else:
            v = (z3.Real("poly%d.re" % n), z3.Real("poly%d.im" % n))
        _OPQ[k] = v
    lr, li = (lc.re, lc.im) if type(lc) is QC else (lc, 0)
    re, im = v
    if im is None:
        return (re * rv(lr), re * rv(li) if li != 0 else None)
    return (re * rv(lr) - im * rv(li), re * rv(li) + im * rv(lr))


def to_z3(s):
    """(re, im) z3 terms; im is None when the value is (syntactically) real."""
    if s._z is not None:
        return s._z
    if _cost(s) > OPAQUE_LIMIT:
        s._z = _expand_poly(s) if len(s.t) <= EXPAND_LIMIT else _opaque_poly(s)
        return s._z
    res, ims = [], []
    allreal = True
    for m, c in s.t.items():
        cr, ci = (c.re, c.im) if type(c) is QC else (c, 0)
        reals = []
        z = None  # complex part (re, im)
        for a, e in m:
            at = ST.atoms[a]
            if at.kind in ("real", "int"):
                t = atom_z3(at)[0] if e > 0 else inv_term(at)
                reals.extend([t] * abs(e))
            else:
                r, i = atom_z3(at)
                if at.kind == "unit":
                    if e < 0:
                        i = -i
                    k = abs(e)
                else:
                    if e < 0:
                        raise SymUnsupported("negative power of complex atom")
                    k = e
                for _ in range(k):
                    z = (r, i) if z is None else (
                        z[0] * r - z[1] * i, z[0] * i + z[1] * r)
        rp = None
        if reals:
            rp = z3.Product(*reals) if len(reals) > 1 else reals[0]

        def scal(q, t):
            if q == 0:
                return None
            parts = []
            if q != 1:
                parts.append(rv(q))
            if rp is not None:
                parts.append(rp)
            if t is not None:
                parts.append(t)
            if not parts:
                return z3.RealVal(1)
            r = parts[0]
            for p in parts[1:]:
                r = r * p
            return r
        if z is None:
            x = scal(cr, None)
            if x is not None:
                res.append(x)
            x = scal(ci, None)
            if x is not None:
                ims.append(x)
        else:
            allreal = False
            for q, t, dst, sgn in ((cr, z[0], res, 1), (ci, z[1], res, -1),
                                   (cr, z[1], ims, 1), (ci, z[0], ims, 1)):
                x = scal(q * sgn, t)
                if x is not None:
                    dst.append(x)
    re = z3.Sum(*res) if len(res) > 1 else (res[0] if res else z3.RealVal(0))
    if not ims:
        im = None
    elif not allreal and s.is_real():
        im = None
    else:
        im = z3.Sum(*ims) if len(ims) > 1 else ims[0]
    s._z = (re, im)
    return s._z


def sym_exp(s):
    """exp of a symbolic value as a product over its monomials."""
    if not s.t:
        return S({(): 1})
    if OPAQUE and s.is_real():
        return sym_opaque("exp", s)
    out = S({(): 1})
    const = complex(0)
    group = {}
    for m, c in s.t.items():
        if not m:
            const = complex(float(c.re), float(c.im)) if type(c) is QC else float(c)
            continue
        # special: angle atoms, exp(+-i*angle(f)) = f/|f| or its conjugate
        if len(m) == 1 and m[0][1] == 1:
            at = ST.atoms[m[0][0]]
            if at.func is not None and at.func[0] == "angle" and type(c) is QC \
                    and c.re == 0 and abs(c.im) == 1:
                u = at.args[0].angle_unit()          # exp(-i theta)
                out = out * (u if c.im == -1 else u.conjugate())
                continue
        if not all(ST.atoms[a].kind in ("real", "int") for a, _ in m):
            group[m] = c
            continue
        mono = S({m: 1})
        cr, ci = (c.re, c.im) if type(c) is QC else (c, 0)
        if cr != 0:
            out = out * _exp_real(mono, cr)
        if ci != 0:
            out = out * _exp_unit(mono, ci)
    if group:
        g = S(group)
        if g.is_real():
            lc = g.t[min(g.t)]
            neg = (lc.re if type(lc) is QC else lc) < 0
            out = out * _exp_real(-g if neg else g, -1 if neg else 1)
        else:
            h = g * S({(): QC(0, -1)})
            if h.is_real():
                lc = h.t[min(h.t)]
                neg = (lc.re if type(lc) is QC else lc) < 0
                out = out * _exp_unit(-h if neg else h, -1 if neg else 1)
            else:
                a = ST.func("cexp", g.key(), "cplx", (g,))
                out = out * S.atom(a)
    if const != 0:
        import cmath
        out = out * S.const(cmath.exp(const) if isinstance(const, complex)
                            else math.exp(const))
    elif len(out.t) > 1 and (s * S({(): QC(0, 1)})).is_real():
        out = S(dict(out.t))
        out._unit = True
    return out


def _exp_unit(mono, q):
    """exp(i*q*mono), mono a real monomial, q rational."""
    neg = q < 0
    q = abs(q)
    arg = mono * S({(): q})
    a = ST.func("expi", arg.key(), "unit", (arg,))
    return S.atom(a, -1 if neg else 1)


def _exp_real(mono, q):
    neg = q < 0
    q = abs(q)
    arg = mono * S({(): q})

    def build(a):
        a.nonneg = True
        a.nonzero = True

        def ax(a, arg=arg):
            x = to_z3(arg)[0]
            y = atom_z3(a)[0]
            return [y > 0, z3.Implies(x == 0, y == 1), z3.Implies(x > 0, y > 1),
                    z3.Implies(x < 0, y < 1), y >= 1 + x]
        a.axioms = ax
    a = ST.func("exp", arg.key(), "real", (arg,), build)
    return S.atom(a, -1 if neg else 1)


def exact_div(p, d):
    """p / d when it is a polynomial, else None"""
    if any(type(c) is QC for c in p.t.values()) or \
            any(type(c) is QC for c in d.t.values()):
        return None
    dm = max(d.t)
    dc = d.t[dm]
    de = dict(dm)
    q = {}
    r = p
    for _ in range(40):
        if not r.t:
            return S(q)
        hit = None
        for m in r.t:
            e = dict(m)
            if all(e.get(a, 0) >= x for a, x in de.items()):
                if hit is None or m > hit:
                    hit = m
        if hit is None:
            return None
        e = dict(hit)
        for a, x in de.items():
            e[a] = e[a] - x
        m = tuple((a, e[a]) for a, _ in hit if e[a])
        if m in q:
            return None
        q[m] = cmul(r.t[hit], cinv(dc))
        r = r - S({m: q[m]}) * d
        r = S({k: c for k, c in r.t.items() if abs(c) > 1e-13})
        if len(r.t) > 120:
            return None
    return None


def sym_tanh(s):
    if s.is_const():
        return S.const(math.tanh(float(s)))
    lead = min(s.t)
    lc = s.t[lead]
    neg = (lc if type(lc) is not QC else lc.re) < 0
    arg = -s if neg else s

    def build(a):
        def ax(a, arg=arg):
            x = to_z3(arg)[0]
            y = atom_z3(a)[0]
            return [y > -1, y < 1, z3.Implies(x == 0, y == 0),
                    z3.Implies(x > 0, z3.And(y > 0, y < x)),
                    z3.Implies(x < 0, z3.And(y < 0, y > x))]
        a.axioms = ax
    a = ST.func("tanh", arg.key(), "real", (arg,), build)
    r = S.atom(a)
    return -r if neg else r


OPAQUE = False      # elementary functions of real arguments as arbitrary reals


OPAQUE_ARGS = {}


def sym_opaque(name, s):
    """an unconstrained real standing for name(s): a sound over-approximation"""
    def build(a):
        def ax(a):
            x = atom_z3(a)[0]
            return [x <= 1, x >= -1]
        a.axioms = ax
    if OPAQUE != "bounded" or name not in ("sin", "cos"):
        build = None
    a = ST.func("opq_" + name, s.key(), "real", (), build)
    OPAQUE_ARGS[a.func] = s
    return S.atom(a)


def opaque_args(x, names=("sin", "cos")):
    """arguments of the opaque functions that x contains, in the order of creation"""
    return [OPAQUE_ARGS[ST.atoms[a].func] for a in sorted(S.const(x).atoms())
            if ST.atoms[a].func and ST.atoms[a].func[0] in ["opq_" + n for n in names]]


def sym_floor(s):
    if OPAQUE and not s.is_const():
        return sym_opaque("floor", s)
    if s.is_const():
        return S.const(math.floor(Fraction(s.const_value())))

    c = s.t.get((), 0)
    if c:
        # floor(x + c) = floor(x) + floor(c) + carry
        x0 = S({m: k for m, k in s.t.items() if m})
        f = sym_floor(x0)
        ci = math.floor(Fraction(c))
        cf = Fraction(c) - ci
        if not cf:
            return f + ci

        def cbuild(a):
            def ax(a):
                b = atom_z3(a)[0]
                fr = to_z3(x0 - f)[0]
                return [z3.Or(b == 0, b == 1), (b == 1) == (fr >= rv(1 - cf))]
            a.axioms = ax
        a = ST.func("carry", (x0.key(), cf), "int", (x0, f), cbuild)
        return f + ci + S.atom(a)

    def build(a):
        def ax(a, arg=s):
            x = to_z3(arg)[0]
            n = atom_z3(a)[0]
            return [n <= x, x < n + 1]
        a.axioms = ax
    a = ST.func("floor", s.key(), "int", (s,), build)
    return S.atom(a)


def sym_angle(s):
    s = S.const(s)
    if s.is_const():
        import cmath
        return S.const(cmath.phase(complex(s)))
    # canonical up to a positive rational factor
    lead = min(s.t)
    sc = s.t[lead]
    sc = abs(sc) if type(sc) is not QC else 1
    nrm = S({m: cmul(c, cinv(sc)) for m, c in s.t.items()})
    a = ST.func("angle", nrm.key(), "real", (nrm,))
    return S.atom(a)


# --------------------------------------------------------------------------
class SBool(object):
    __slots__ = ("e", "a")
    __array_priority__ = 1000.0

    def __init__(self, e, a=()):
        self.e = e
        self.a = frozenset(a)

    def __bool__(self):
        return ENGINE.decide(self)

    def __and__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.And(self.e, o.e), self.a | o.a)
        return self if o else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.Or(self.e, o.e), self.a | o.a)
        return True if o else self

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.Xor(self.e, o.e), self.a | o.a)
        return ~self if o else self

    def __invert__(self):
        return SBool(z3.Not(self.e), self.a)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.e == o.e, self.a | o.a)
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        return bool(self) == o

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return hash(self.e)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.handle_ufunc(ufunc, method, inputs, kw)

    def __repr__(self):
        return "<symbool>"


def real_input(name, kind="real"):
    return S.atom(ST.real(name, kind))


def cplx_input(name):
    return S.atom(ST.cplx(name))


def lift(x):
    return x if isinstance(x, S) else S.const(x)
