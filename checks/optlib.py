"""An adversarial minimiser and clock: scipy's minimisers are replaced by a script of calls
on arbitrary parameter values, so that the optimisers are driven through every order of
function, gradient and iteration calls a minimiser may make."""
import contextlib
import inspect
import time
import timeit
import numpy as np
import scipy.optimize as so
import qutip_qtrl.errors as errors
import qutip_qtrl.fidcomp as fidcomp
import qutip_qtrl.optimconfig as oc
import qutip_qtrl.optimizer as om
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.termcond as termcond
from symq import stubs, core
from . import dynlib as dl

FRONTS = ["minimize", "fmin", "fmin_bfgs", "fmin_l_bfgs_b"]
REAL = {n: getattr(so, n) for n in FRONTS}
SIG = {n: inspect.signature(REAL[n]) for n in FRONTS}
FRONT_OF = {"Optimizer": "minimize", "OptimizerBFGS": "fmin_bfgs",
            "OptimizerLBFGSB": "fmin_l_bfgs_b", "OptimizerCrab": "minimize",
            "OptimizerCrabFmin": "fmin"}


def same(x, y):
    """structurally (symbolic) or numerically equal"""
    x, y = core.lift(x) if isinstance(x, core.S) else x, y
    if isinstance(x, core.S) or isinstance(y, core.S):
        d = core.lift(x) - core.lift(y)
        return d.is_const() and d.const_value() == 0
    return x == y


def same_arr(a, b):
    if np.shape(a) != np.shape(b):
        return False
    return all(same(x, y) for x, y in zip(np.asarray(a, dtype=object).reshape(-1),
                                          np.asarray(b, dtype=object).reshape(-1)))


class FakeFid(fidcomp.FidelityComputer):
    """error and gradient are arbitrary functions of the amplitudes"""

    def __init__(self, dyn, env):
        self.env = env
        self.seen = []
        fidcomp.FidelityComputer.__init__(self, dyn)

    def entry(self, amps):
        for e in self.seen:
            if same_arr(e["amps"], amps):
                return e
        e = dict(amps=amps.copy(), k=len(self.seen))
        self.seen.append(e)
        return e

    def err_of(self, amps):
        e = self.entry(amps)
        if "err" not in e:
            e["err"] = self.env.real("err%d" % e["k"], 0)
        return e["err"]

    def fid_of(self, amps):
        e = self.entry(amps)
        if "fid" not in e:
            e["fid"] = self.env.real("fid%d" % e["k"], 0)
        return e["fid"]

    def grad_of(self, amps):
        e = self.entry(amps)
        if "grad" not in e:
            e["gn"] = self.env.real("gn%d" % e["k"], 0)
            e["grad"] = self.env.rarr("gr%d" % e["k"], np.shape(amps))
        return e["grad"], e["gn"]

    def get_fid_err(self):
        self.parent.compute_evolution()
        self.fid_err = self.err_of(self.parent.ctrl_amps)
        return self.fid_err

    def get_fidelity(self):
        return self.fid_of(self.parent.ctrl_amps)

    def get_fid_err_gradient(self):
        self.parent.compute_evolution()
        g, self.grad_norm = self.grad_of(self.parent.ctrl_amps)
        return g.copy()


class LinCrab(pulsegen.PulseGenCrab):
    """amplitude k of the pulse = coefficient k (as many coefficients as slots)"""

    def init_pulse(self, **k):
        self.num_basis_funcs = 1
        self.num_optim_vars = self.num_tslots
        self.coeffs = self.vals.copy()

    def get_optim_var_vals(self):
        return [self.coeffs[k] for k in range(self.num_tslots)]

    def set_optim_var_vals(self, v):
        self.coeffs = v.copy()

    def gen_pulse(self, coeffs=None):
        return self.coeffs.copy()


class Clock:
    def __init__(self, env):
        self.env = env
        self.t = [env.real("clk0", 0)]
        self.reads = []

    def __call__(self):
        v = self.t[-1]
        if self.reads:
            v = v + self.env.real("dt%d" % len(self.reads), 0)
            self.t.append(v)
        self.reads.append(v)
        return v


class Mini:
    """one scripted run"""

    def __init__(self, env, cfg, opt, script):
        self.env, self.cfg, self.opt = env, cfg, opt
        self.script = script
        self.nf = self.ng = self.ncb = self.nx = 0
        self.args = None            # bound arguments of the minimiser
        self.front = None
        self.log = []               # (op, x value, result or exception)
        self.xs = []
        self.done = 0
        self.hook = None
        self.runs = 0

    # ---- patched entry points
    def entry(self, name):
        def call(*a, **k):
            b = SIG[name].bind(*a, **k)
            b.apply_defaults()
            self.front = name
            self.args = dict(b.arguments)
            self.runs += 1
            return self.run(name, self.args)
        call.__name__ = name
        return call

    @contextlib.contextmanager
    def patched(self, clock=None):
        import sys
        rep = {id(REAL[n]): self.entry(n) for n in FRONTS}
        undo = []
        if clock is not None:
            for f in (timeit.default_timer, time.time, time.monotonic, time.process_time):
                rep[id(f)] = clock
            undo.append((timeit.__dict__, "default_timer", timeit.default_timer))
        try:
            for n in FRONTS:
                undo.append((so.__dict__, n, REAL[n]))
                setattr(so, n, rep[id(REAL[n])])
            if clock is not None:
                timeit.default_timer = clock
            for mod in stubs.qtrl_modules():
                d = mod.__dict__
                for k in list(d):
                    r = rep.get(id(d[k]))
                    if r is not None and not k.startswith("__"):
                        undo.append((d, k, d[k]))
                        d[k] = r
            yield self
        finally:
            for d, k, v in reversed(undo):
                d[k] = v

    # ---- the script
    def newx(self, n):
        x = self.env.rarr("x%d" % self.nx, n)
        self.nx += 1
        for y in self.xs:           # new points differ from all earlier ones
            for k in range(n):
                self.env.assume(x[k] != y[k])
        return x

    def run(self, name, a):
        env = self.env
        f = a["fun"] if name == "minimize" else a.get("func", a.get("f"))
        jac = a["jac"] if name == "minimize" else a.get("fprime")
        cb = a["callback"]
        env.ensure("objective is callable", callable(f))
        if name == "fmin_l_bfgs_b" and jac is None:
            env.ensure("no gradient function, so the minimiser must approximate it",
                       bool(a["approx_grad"]))
        self.x0 = a["x0"].copy()
        x = a["x0"].copy()
        self.xs.append(x.copy())
        self.f_last = None
        ret = 0
        for op in self.script:
            if op in "fsmp":
                if op == "f" and self.nf:
                    x = self.newx(len(x))
                elif op == "m":
                    x[0] = self.newx(1)[0]
                elif op == "p":
                    x = x.copy()
                    x[0] = self.newx(1)[0]
                self.xs.append(x.copy())
                self.nf += 1
                self.call("f", f, x)
            elif op == "g":
                if jac is None:
                    continue
                self.ng += 1
                self.call("g", jac, x)
            elif op == "c":
                self.ncb += 1
                self.call("c", cb, x)
            elif op == "1":
                ret = 1             # returns the first point
            elif op == "n":
                ret = 2             # returns a point it never evaluated
        xr = self.xs[0] if ret == 1 else x if ret == 0 else self.newx(len(x))
        self.ret = xr = xr.copy()
        fv = self.log[-1][2] if self.log else None
        w = self.cfg.get("warn", 0)
        if name == "minimize":
            r = dict(x=xr, fun=fv, message="scripted message", status=w, success=w == 0,
                     nfev=self.nf)
            if not self.cfg.get("nonit"):
                r["nit"] = self.ncb
            return so.OptimizeResult(r)
        if name == "fmin_bfgs":
            r = (xr, fv, None, None, self.nf, self.ng, w)
            if not a["full_output"]:
                return xr
            return r + ([],) if a["retall"] else r
        if name == "fmin_l_bfgs_b":
            return xr, fv, dict(warnflag=w, grad=None, task="scripted task", funcalls=self.nf,
                                nit=self.ncb)
        r = (xr, fv, self.ncb, self.nf, w)
        if not a["full_output"]:
            return xr
        return r + ([xr],) if a["retall"] else r

    def call(self, op, fn, x):
        """one call of the optimiser; hook judges what it did"""
        xc = x.copy()
        if self.hook:
            self.hook("before", op, xc, None, None)
        try:
            v = fn(x)
        except errors.OptimizationTerminate as e:
            self.log.append((op, xc, e))
            if self.hook:
                self.hook("after", op, xc, None, e)
            raise
        self.env.ensure("the minimiser's variables are left alone", same_arr(x, xc))
        self.log.append((op, xc, v))
        if self.hook:
            self.hook("after", op, xc, v, None)
        return v


def setup(env, cfg, fake=True, params=None, init=True, config=None):
    """system, dynamics and optimiser of cfg['opt']"""
    c = dict(dict(dyn="GEN_MAT", prop="FRECHET", fid="TRACEDIFF", init=0, nts=1, nc=1), **cfg)
    s = dl.system(env, c)
    d = dl.make(env, c)
    if fake:
        d.fid_computer = FakeFid(d, env)
    dl.configure(env, c, d, s)
    if init:
        d.initialize_controls(s.u.copy())
    opt = getattr(om, cfg["opt"])(config or oc.OptimConfig(), d, params=params)
    if "Crab" in cfg["opt"]:
        opt.alg = "CRAB"
        gens = []
        for j in range(s.nc):
            g = LinCrab(dyn=d)
            g.vals = s.u[:, j].copy()
            g.init_pulse()
            gens.append(g)
        opt.pulse_generator = gens
    if cfg.get("method"):
        opt.method = cfg["method"]
    if cfg["opt"] == "Optimizer" and not cfg.get("method"):
        opt.method = "BFGS"
    tc = termcond.TerminationConditions()
    opt.termination_conditions = tc
    return s, c, d, opt, tc


def amps_of(cfg, s, x):
    """the documented layout: slot by slot, CRAB control by control"""
    if "Crab" in cfg["opt"]:
        return x.reshape((s.nc, s.nts)).T
    return x.reshape((s.nts, s.nc))
