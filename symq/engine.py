"""Path exploration and solver queries."""
import json
import os
import random
import select
import sys
import time
from fractions import Fraction
import z3
from . import core
from .core import (S, SBool, ST, QC, SymUnsupported, to_z3, atom_z3, atom_axioms,
                   inv_term, lift, rv)
import numpy as np


class DivZero(Exception):
    """the code under test divides by zero on this path: what it does then is decided by
    running the real code on a witness of the path"""


def _from_code():
    """is the operation in progress called from the code under test (not from a harness)?"""
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if "qutip_qtrl" in n:
            return True
        if "/checks/" in n:
            return False
        f = f.f_back
    return False


class Abort(BaseException):
    """stop this path (infeasible assumption)"""


class PathLimit(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.vacuous = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.domain = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + o[k])


class Violation:
    def __init__(self, label, model, inputs, note=""):
        self.label = label
        self.inputs = inputs
        self.note = note


class Engine:
    def __init__(self, seed=1, timeout_ms=8000, max_paths=400, branch_nl=True):
        self.branch_nl = branch_nl
        self.stats = Stats()
        self.seed = seed
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.names_real = {}
        self.limit_hit = False

    # ---------------------------------------------------------------- paths
    def explore(self, fn):
        """run fn() once per feasible path; yields (outcome, exc)"""
        work = [[]]
        while work:
            if self.stats.paths >= self.max_paths:
                self.limit_hit = True
                raise PathLimit("path limit %d" % self.max_paths)
            self.prefix = work.pop()
            self.pos = 0
            self.trail = []
            self.pending = []
            self.cons = []          # list of (z3 expr, atoms)
            self.dec_cache = {}
            self.ent_cache = {}
            self.mod_cache = None
            self.counters = {}
            self.obls = []
            self.inputs = {}
            core.ENGINE = self
            self.stats.paths += 1
            exc = None
            res = None
            try:
                res = fn()
            except Abort:
                exc = "vacuous"
                self.stats.vacuous += 1
            except Exception as e:     # noqa
                exc = e
            finally:
                for p in reversed(self.pending):
                    work.append(p)
            yield res, exc
        core.ENGINE = None

    def decide(self, b):
        e = z3.simplify(b.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.dec_cache:
            return self.dec_cache[k][0]
        ne = z3.simplify(z3.Not(e))
        nk = ne.get_id()
        if nk in self.dec_cache:
            return not self.dec_cache[nk][0]
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            r1 = self._check([(e, b.a)], 500, t1=500, nl_stage=self.branch_nl)
            if r1 == z3.unsat:
                v = False
                r2 = z3.sat
            else:
                r2 = self._check([(ne, b.a)], 500, t1=500, nl_stage=self.branch_nl)
                v = True
            if r1 != z3.unsat and r2 != z3.unsat:
                self.pending.append(self.trail + [False])
            elif r1 == z3.unsat:
                v = False
        self.pos += 1
        self.trail = self.trail + [v]
        self.dec_cache[k] = (v, e)
        self.cons.append((e if v else ne, b.a))
        return v

    def assume(self, c):
        if isinstance(c, SBool):
            e = z3.simplify(c.e)
            if z3.is_true(e):
                return
            if z3.is_false(e):
                raise Abort()
            self.cons.append((e, c.a))
            self.dec_cache[e.get_id()] = (True, e)
        elif not c:
            raise Abort()

    def require_nonzero(self, s, spec=False):
        if s.is_const():
            if s.const_value() == 0:
                raise ZeroDivisionError("symbolic division by zero")
            return
        c = (s != 0)
        e = z3.simplify(c.e)
        if e.get_id() in self.dec_cache:
            return
        self.stats.domain += 1
        if spec or not _from_code():
            self.assume(c)
        elif not self.decide(c):
            raise DivZero("division by zero in the code")

    # --------------------------------------------------------------- fresh
    def count(self, tag):
        n = self.counters.get(tag, 0)
        self.counters[tag] = n + 1
        return n

    def garbage(self):
        return core.real_input("garbage!%d" % self.count("garbage"))

    def fresh_uniform(self, lo, hi):
        n = "rnd!%d" % self.count("rnd")
        x = core.real_input(n)
        self.inputs[n] = x
        self.assume(x >= lo)
        self.assume(x < hi)
        return x

    # -------------------------------------------------------------- solving
    def closure(self, atoms):
        seen = set()
        todo = list(atoms)
        while todo:
            a = todo.pop()
            at = ST.atoms[a]
            if at.kind == "cbar":
                a = at.conj
                at = ST.atoms[a]
            if a in seen:
                continue
            seen.add(a)
            for p in at.args:
                todo.extend(p.atoms())
        return seen

    def axioms(self, atoms):
        out = []
        for a in sorted(self.closure(atoms)):
            at = ST.atoms[a]
            if at.func is not None and not at.axioms and at.kind not in ("unit",):
                continue
            out.extend(atom_axioms(at))
        for a in sorted(self.closure(atoms)):
            at = ST.atoms[a]
            if at.inv_z3 is not None:
                x = atom_z3(at)[0]
                out.append(z3.Implies(x != 0, x * at.inv_z3 == 1))
        return out

    def _check(self, extra, timeout=None, want_model=False, cons=None, pins=(), t1=4000,
               nl_stage=True):
        """sat/unsat/unknown of the path condition plus extra.

        Stage 1 treats nonlinear monomials as unknowns (unsat is sound); stage 2
        is z3's full nonlinear solver in a child process with a hard limit."""
        cons = self.cons if cons is None else cons
        allc = list(cons) + list(extra)
        atoms = set()
        for _, a in allc:
            atoms |= set(a)
        ax = self.axioms(atoms)
        es = ax + [e for e, _ in allc] + list(pins)
        t = time.time()
        self.stats.queries += 1
        try:
            nl, size = _shape(es)
            s = z3.SimpleSolver()
            s.set("timeout", t1)
            s.set("random_seed", self.seed)
            if nl:
                s.set("arith.nl", False)
            s.add(*es)
            r = s.check()
            if r == z3.unsat:
                return (r, None) if want_model else r
            if not nl and r == z3.sat:
                return (r, _model_dict(s.model())) if want_model else r
            tmo = timeout or self.timeout
            if not want_model and (size > 3000 or not nl_stage):
                r, m = z3.unknown, None
            else:
                r, m = _child_solve(es, tmo, self.seed)
        finally:
            self.stats.solver_s += time.time() - t
        return (r, m) if want_model else r

    # ------------------------------------------------------------- queries
    def path_feasible(self):
        r, m = self._check([], 6000, True)
        return r, m

    def model_inputs(self, m):
        out = {}
        for n, x in self.inputs.items():
            out[n] = self.eval_num(m, x)
        return out

    def eval_num(self, m, x):
        """numeric value of a polynomial under a model (dict name -> float)"""
        x = lift(x)
        tot = 0
        for mono, c in x.t.items():
            v = complex(float(c.re), float(c.im)) if type(c) is QC else float(c)
            for a, e in mono:
                v = v * atom_value(m, ST.atoms[a]) ** e
            tot += v
        tot = complex(tot)
        return tot if not x.is_real() else tot.real

    def entailed(self, conds):
        """conds: list of SBool/bool, all must be entailed."""
        ex = []
        at = set()
        for c in conds:
            if isinstance(c, SBool):
                ex.append(z3.Not(c.e))
                at |= c.a
            elif not c:
                return False
        if not ex:
            return True
        k = (len(self.cons), tuple(e.get_id() for e in ex))
        if k not in self.ent_cache:
            # ex is kept alive so that its ids stay unique
            self.ent_cache[k] = (self._check([(z3.Or(*ex), at)], 1500) == z3.unsat, ex)
        return self.ent_cache[k][0]

    def equalities_possible(self):
        for e, _ in self.cons:
            if _has_eq(e):
                return True
        return False

    def rewrite(self, polys):
        """congruence + equality rewriting under the path condition."""
        if self.mod_cache is None or self.mod_cache[0] != len(self.cons):
            self.mod_cache = (len(self.cons),) + tuple(self._check([], 3000, True))
        _, r, m = self.mod_cache
        if r != z3.sat:
            return polys
        subst = {}

        def val(p):
            return self.eval_num(m, p)

        for _ in range(3):
            atoms = set()
            for p in polys:
                atoms |= p.atoms()
            clo = self.closure(atoms)
            changed = False
            # plain unknowns
            reals = [a for a in sorted(clo) if ST.atoms[a].func is None
                     and ST.atoms[a].kind in ("real", "int")]
            vals = {a: val(S.atom(ST.atoms[a])) for a in reals}
            for i, a in enumerate(reals):
                if a in subst:
                    continue
                for b in reals[i + 1:]:
                    if b in subst or abs(vals[a] - vals[b]) > 1e-9:
                        continue
                    if self.entailed([S.atom(ST.atoms[a]) == S.atom(ST.atoms[b])]):
                        subst[b] = S.atom(ST.atoms[a])
                        changed = True
            # applications
            apps = {}
            for a in clo:
                ap = APP_OF.get(a)
                if ap is not None:
                    apps[ap.idx] = ap
            groups = {}
            for ap in apps.values():
                groups.setdefault((ap.fname, len(ap.args)), []).append(ap)
            for g in groups.values():
                g.sort(key=lambda ap: ap.idx)
                for i, p in enumerate(g):
                    if p.merged is self and p.tag == id(self.cons):
                        continue
                    for q in g[i + 1:]:
                        if any(o in subst for o in q.outs):
                            continue
                        pa = [apply_subst(x, subst) for x in p.args]
                        qa = [apply_subst(x, subst) for x in q.args]
                        conds = [x == y for x, y in zip(pa, qa)]
                        if any(c is False for c in conds):
                            # difference is a nonzero constant
                            continue
                        try:
                            if any(abs(val(x) - val(y)) > 1e-7
                                   for x, y in zip(pa, qa)):
                                continue
                        except SymUnsupported:
                            continue
                        if self.entailed(conds):
                            for o1, o2 in zip(p.outs, q.outs):
                                if o1 != o2:
                                    subst[o2] = S.atom(ST.atoms[o1])
                            changed = True
            if not changed:
                break
            polys = [apply_subst(p, subst) for p in polys]
        return polys

    def prove_zero(self, label, diffs, scales, kind="eq"):
        """assert every polynomial in diffs is 0 on this path"""
        self.stats.obligations += 1
        ds = []
        for d, sc in zip(diffs, scales):
            d = lift(d)
            tol = 1e-11 * max(sc, 1e-30)
            if any(core.cabs(c) <= tol for c in d.t.values()):
                d = S({m: c for m, c in d.t.items() if core.cabs(c) > tol})
            ds.append(d)
        nz = [d for d in ds if d.t]
        if not nz:
            # normal forms coincide: trivial query kept for the record
            r = self._check([(z3.BoolVal(False), set())], cons=[])
            assert r == z3.unsat
            self.stats.discharged += 1
            return None
        nz2 = nz
        if any(d.atoms() for d in nz):
            nz2 = [d for d in self.rewrite(nz)]
            nz2 = [S({m: c for m, c in d.t.items() if core.cabs(c) > 1e-11})
                   for d in nz2]
            nz2 = [d for d in nz2 if d.t]
            if not nz2:
                r = self._check([(z3.BoolVal(False), set())])
                self.stats.discharged += 1
                return None
        ex = [core.expand_defs(d) for d in nz2]
        if all(d is not None for d in ex):
            nz2 = [S({m: c for m, c in d.t.items() if core.cabs(c) > 1e-11})
                   for d in ex]
            nz2 = [d for d in nz2 if d.t]
            if not nz2:
                self._check([(z3.BoolVal(False), set())])
                self.stats.discharged += 1
                return None
        q = [strip_common(d) for d in nz2]
        if any(x is not y for x, y in zip(q, nz2)):
            ng, qa = [], set()
            for d in q:
                re, im = to_z3(d)
                ng.append(re != 0)
                if im is not None:
                    ng.append(im != 0)
                qa |= d.atoms()
            if self._check([(z3.Or(*ng), qa)], 2500) == z3.unsat:
                self.stats.discharged += 1
                return None
        neg = []
        big = []
        at = set()
        for d in nz2:
            re, im = to_z3(d)
            neg.append(re != 0)
            big.append(z3.Or(re > rv(Fraction(1, 50)), re < rv(Fraction(-1, 50))))
            if im is not None:
                neg.append(im != 0)
                big.append(z3.Or(im > rv(Fraction(1, 50)), im < rv(Fraction(-1, 50))))
            at |= d.atoms()
        return self._decide_neg(label, z3.Or(*neg), z3.Or(*big), at)

    def prove(self, label, cond):
        self.stats.obligations += 1
        if not isinstance(cond, SBool):
            if cond:
                r = self._check([(z3.BoolVal(False), set())], cons=[])
                self.stats.discharged += 1
                return None
            r, m = self._check([], self.timeout, True)
            if r == z3.unsat:
                self.stats.discharged += 1
                return None
            if r == z3.unknown:
                self.stats.unknown += 1
                return Violation(label, None, self.sample_inputs(), "path feasibility unknown")
            return Violation(label, m, self.model_inputs(m))
        return self._decide_neg(label, z3.Not(cond.e), None, cond.a)

    def _decide_neg(self, label, neg, big, at):
        extra = [(neg, at)]
        r = self._check(extra, 2500)
        if r == z3.unsat:
            self.stats.discharged += 1
            return None
        # look for a robust, generic counterexample
        rnd = random.Random(self.seed * 7919 + 13)
        used = set()
        for _, a in self.cons:
            used |= set(a)
        for attempt in range(3):
            pins = []
            for n, x in self.inputs.items():
                if isinstance(x, SBool):
                    continue
                if attempt < 2 and not (x.atoms() & used) or attempt == 0 and False:
                    re, im = to_z3(x)
                    pins.append(re == rv(Fraction(rnd.randint(-40, 40) or 7, 23)))
                    if im is not None:
                        pins.append(im == rv(Fraction(rnd.randint(-40, 40) or 5, 23)))
            ex = [(big if (big is not None and attempt != 1) else neg, at)]
            rr, m = self._check(ex, 6000, True, pins=pins if attempt < 2 else ())
            if rr == z3.sat:
                return Violation(label, m, self.model_inputs(m))
        rr, m = self._check(extra, self.timeout * 3, True)
        if rr == z3.unsat:
            self.stats.discharged += 1
            return None
        if rr == z3.sat:
            return Violation(label, m, self.model_inputs(m))
        self.stats.unknown += 1
        return Violation(label, None, None, "unknown")

    def sample_inputs(self):
        return None


def strip_common(d):
    """d divided by the atoms common to all its monomials (zero if that is zero)"""
    common = None
    for m in d.t:
        e = dict(m)
        if common is None:
            common = e
        else:
            common = {a: min(common[a], e[a]) for a in common
                      if a in e and (common[a] > 0) == (e[a] > 0)}
        if not common:
            return d
    common = {a: x for a, x in common.items() if x > 0}
    if not common:
        return d
    out = {}
    for m, c in d.t.items():
        out[tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0))] = c
    return S(out)


def atom_value(m, at):
    k = at.kind
    if k in ("real", "int"):
        return m.get(at.name, 0.0)
    if k == "unit":
        c, s_ = m.get(at.name + ".c", 1.0), m.get(at.name + ".s", 0.0)
        return complex(c, s_)
    if k == "cplx":
        return complex(m.get(at.name + ".re", 0.0), m.get(at.name + ".im", 0.0))
    b = ST.atoms[at.conj]
    return complex(m.get(b.name + ".re", 0.0), -m.get(b.name + ".im", 0.0))


def _model_dict(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_bool(v):
                out[d.name()] = z3.is_true(v)
            else:
                out[d.name()] = _num(v)
    return out


_SHAPE = {}


def _shape(es):
    """(has nonlinear terms, number of distinct subterms)"""
    nl = False
    seen = set()
    todo = list(es)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > 20000:
            return True, len(seen)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_MUL:
            if sum(0 if z3.is_rational_value(c) else 1 for c in ch) > 1:
                nl = True
        elif k == z3.Z3_OP_POWER or k == z3.Z3_OP_DIV:
            nl = True
        todo.extend(ch)
    return nl, len(seen)


def _child_solve(es, timeout_ms, seed):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            s = z3.Solver()
            s.set("timeout", int(timeout_ms))
            s.set("random_seed", seed)
            s.add(*es)
            r = s.check()
            d = _model_dict(s.model()) if r == z3.sat else None
            os.write(wfd, json.dumps([str(r), d]).encode())
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b""
    end = time.time() + timeout_ms / 1000.0 + 0.3
    while True:
        left = end - time.time()
        if left <= 0:
            break
        rl, _, _ = select.select([rfd], [], [], left)
        if not rl:
            break
        d = os.read(rfd, 1 << 16)
        if not d:
            break
        buf += d
    os.close(rfd)
    try:
        os.kill(pid, 9)
    except OSError:
        pass
    os.waitpid(pid, 0)
    try:
        r, d = json.loads(buf.decode())
    except ValueError:
        return z3.unknown, None
    return {"sat": z3.sat, "unsat": z3.unsat}.get(r, z3.unknown), d


def _has_eq(e):
    if z3.is_eq(e):
        return True
    return any(_has_eq(c) for c in e.children())


def _num(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    v2 = z3.simplify(v)
    if z3.is_rational_value(v2):
        return float(Fraction(v2.numerator_as_long(), v2.denominator_as_long()))
    if z3.is_algebraic_value(v2):
        a = v2.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


# --------------------------------------------------------------------------
class App:
    """application of an opaque function to a tuple of polynomials"""
    __slots__ = ("idx", "fname", "args", "outs", "merged", "tag", "res", "extra")


APPS = {}
APP_OF = {}


def make_app(fname, args, mk):
    """intern an application; mk(app_index) -> (result, [Atom])"""
    args = tuple(lift(a) for a in args)
    k = (fname, tuple(a.key() for a in args))
    ap = APPS.get(k)
    if ap is None:
        ap = App()
        ap.idx = len(APPS)
        ap.fname = fname
        ap.args = args
        ap.merged = None
        ap.tag = None
        ap.extra = None
        APPS[k] = ap
        ap.res, atoms = mk(ap.idx)
        ap.outs = []
        for a in atoms:
            a.args = args
            a.func = a.func or (fname, ap.idx)
            ap.outs.append(a.id)
            APP_OF[a.id] = ap
    return ap


def apply_subst(p, subst):
    if not subst:
        return p
    full = dict(subst)
    hit = False
    for a in p.atoms():
        at = ST.atoms[a]
        if a in full or (at.kind == "cbar" and at.conj in full):
            hit = True
            break
    if not hit:
        return p
    out = S({})
    for m, c in p.t.items():
        term = S({(): c})
        rest = []
        for a, e in m:
            at = ST.atoms[a]
            if a in full:
                r = full[a]
            elif at.kind == "cbar" and at.conj in full:
                r = full[at.conj].conjugate()
            else:
                rest.append((a, e))
                continue
            term = term * (r ** e)
        if rest:
            term = term * S({tuple(rest): 1})
        out = out + term
    return out


def register_scalar_app(a):
    """make scalar function atoms (exp, sqrt, tanh, ...) available to congruence"""
    if a.func is not None and a.id not in APP_OF:
        ap = App()
        ap.idx = 10 ** 6 + a.id
        ap.fname = "f:" + a.func[0]
        ap.args = a.args
        ap.outs = [a.id]
        ap.merged = None
        ap.tag = None
        ap.res = None
        ap.extra = None
        APP_OF[a.id] = ap


_old_func = core.Store.func


def _func(self, fname, key, kind, args=(), build=None):
    a = _old_func(self, fname, key, kind, args, build)
    register_scalar_app(a)
    return a


core.Store.func = _func
