"""Builds a Dynamics object of the code under test from environment inputs, and
independent specifications of what it should compute."""
import numpy as np
import qutip_qtrl.dynamics as dynamics
import qutip_qtrl.optimconfig as optimconfig
import qutip_qtrl.propcomp as propcomp
import qutip_qtrl.fidcomp as fidcomp

PROPS = {"FRECHET": "PropCompFrechet", "DIAG": "PropCompDiag",
         "AUG_MAT": "PropCompAugMat", "APPROX": "PropCompApproxGrad"}
FIDS = {"UNIT": "FidCompUnitary", "TRACEDIFF": "FidCompTraceDiff",
        "TDAPPROX": "FidCompTraceDiffApprox"}
DYNS = {"GEN_MAT": "DynamicsGenMat", "UNIT": "DynamicsUnitary",
        "SYMPL": "DynamicsSymplectic"}


class Sys:
    pass


def omega(env, n):
    o = np.zeros((n, n))
    for i in range(0, n, 2):
        o[i, i + 1] = 1
        o[i + 1, i] = -1
    return env.arr(o)


def system(env, cfg, tag=""):
    """symbolic drift / controls / initial / target / amplitudes / slot lengths"""
    s = Sys()
    n, nt, nc = cfg.get("N", 2), cfg["nts"], cfg["nc"]
    s.N, s.nts, s.nc = n, nt, nc
    kind = cfg["dyn"]
    gen = (lambda nm: env.herm(tag + nm, n)) if kind == "UNIT" else \
        (lambda nm: env.carr(tag + nm, (n, n)))
    if kind == "SYMPL":
        def gen(nm):
            return env.rarr(tag + nm, (n, n))
    s.drift = [gen("A%d" % k) for k in range(nt)] if cfg.get("tdd") else [gen("A")] * nt
    s.ctrl = [[gen("B%d_%d" % (k, j)) for j in range(nc)] for k in range(nt)] \
        if cfg.get("tdc") else [[gen("B%d" % j) for j in range(nc)]] * nt
    if cfg.get("state"):
        s.initial = env.carr(tag + "psi", (n, 1))
        s.target = env.carr(tag + "phi", (n, 1))
    else:
        s.initial = env.carr(tag + "U0", (n, n)) if cfg.get("init", 1) else env.arr(np.eye(n))
        s.target = env.carr(tag + "UT", (n, n))
    if cfg.get("fid") == "UNIT":
        # the measure is normalised by the norm of the target
        env.nonzero(env.tr(s.target.conj().T.dot(s.target)).real)
    if cfg.get("gphase"):
        s.phase = env.carr(tag + "ph", (n, n)) if cfg["gphase"] == "matrix" \
            else env.cplx(tag + "ph")
    s.u = env.rarr(tag + "u", (nt, nc))
    s.tau = [env.pos(tag + "tau%d" % k) for k in range(nt)] if cfg.get("tau") else None
    if s.tau is None:
        s.T = env.pos(tag + "T")
        s.taus = [s.T / nt for _ in range(nt)]
    else:
        s.taus = s.tau
    return s


def build(env, cfg, s, init=True):
    d = make(env, cfg)
    configure(env, cfg, d, s)
    if init:
        d.initialize_controls(s.u.copy())
    return d


def make(env, cfg):
    oc = optimconfig.OptimConfig()
    d = getattr(dynamics, DYNS[cfg["dyn"]])(oc)
    if "prop" in cfg:
        d.prop_computer = getattr(propcomp, PROPS[cfg["prop"]])(d)
    if "fid" in cfg:
        d.fid_computer = getattr(fidcomp, FIDS[cfg["fid"]])(d)
    if cfg.get("phase"):
        d.phase_application = cfg["phase"]
    if cfg.get("phopt"):
        d.fid_computer.phase_option = cfg["phopt"]
    if cfg.get("dtype"):
        d.oper_dtype = env.Qobj if cfg["dtype"] == "q" else np.ndarray
    d.memory_optimization = cfg.get("mem", 0)
    for f in ("cache_phased_dyn_gen", "cache_prop_grad", "cache_dyn_gen_eigenvectors_adj"):
        if f in cfg:
            setattr(d, f, bool(cfg[f]))
    return d


def configure(env, cfg, d, s):
    q = env.qobj
    if cfg.get("dims"):
        # composite system
        dm = cfg["dims"]

        def q(m):
            return env.qobj(m, dims=[dm, dm if m.shape[1] > 1 else [1]])
    d.drift_dyn_gen = [q(m) for m in s.drift] if cfg.get("tdd") else q(s.drift[0])
    if cfg.get("tdc"):
        c = np.empty((s.nts, s.nc), dtype=object)
        for k in range(s.nts):
            for j in range(s.nc):
                c[k, j] = q(s.ctrl[k][j])
        d.ctrl_dyn_gen = c
    else:
        d.ctrl_dyn_gen = [q(m) for m in s.ctrl[0]]
    if cfg.get("gphase"):
        # phase given by the user: a number, or a matrix of the operator type in use
        ph = s.phase
        if cfg["gphase"] == "matrix":
            ph = q(ph) if cfg.get("dtype") == "q" else ph
        d.dyn_gen_phase = ph
        if cfg["gphase"] == "custom":
            d._apply_phase = lambda dg: dg * ph + dg
    d.initial = q(s.initial)
    d.target = q(s.target)
    if s.tau is not None:
        d.tau = env.arr(s.tau)
    else:
        d.num_tslots = s.nts
        d.evo_time = s.T


def phase(env, cfg, m, s=None):
    """generator -> argument of the exponential per unit time"""
    if cfg.get("gphase") == "number":
        return m * s.phase
    if cfg.get("gphase") == "custom":
        return m * s.phase + m
    if cfg.get("gphase") == "matrix":
        return s.phase.dot(m) if cfg["phase"] == "preop" else m.dot(s.phase)
    if cfg["dyn"] == "UNIT":
        return m * (-1j)
    if cfg["dyn"] == "SYMPL":
        o = omega(env, m.shape[0])
        if cfg.get("phase", "postop") == "postop":
            return m.dot(-o)
        return o.dot(m)
    return m


class Spec:
    """what the slots, evolutions, error and gradient should be"""

    def __init__(self, env, cfg, s, u=None, run=True):
        self.env, self.cfg, self.s = env, cfg, s
        if not run:
            return
        u = s.u if u is None else u
        self.u = u
        self.diag = cfg.get("prop", "DIAG" if cfg["dyn"] == "UNIT" else "FRECHET") == "DIAG"
        self.G, self.P, self.D = [], [], []
        self.eig = []
        for k in range(s.nts):
            g = s.drift[k]
            for j in range(s.nc):
                g = g + s.ctrl[k][j] * u[k, j]
            self.G.append(g)
            if self.diag:
                lam, V = env.eigh(g)
                self.eig.append((lam, V))
                e = [env.exp(lam[i] * s.taus[k] * (-1j)) for i in range(s.N)]
                self.P.append(self._rot(V, np.diag(np.ones(s.N)), e))
            else:
                self.P.append(env.expm(phase(env, cfg, g, s) * s.taus[k]))

    def _rot(self, V, _, e):
        env, n = self.env, self.s.N
        E = env.arr(np.zeros((n, n)), "complex")
        if not env.sym:
            E = E.astype(complex)
        for i in range(n):
            E[i, i] = e[i]
        return V.dot(E).dot(V.conj().T)

    def dP(self, k, j):
        """derivative of slot propagator k with respect to amplitude j"""
        env, s = self.env, self.s
        H = s.ctrl[k][j]
        tau = s.taus[k]
        if not self.diag:
            A = phase(env, self.cfg, self.G[k], s) * tau
            return env.frechet(A, phase(env, self.cfg, H, s) * tau)
        lam, V = self.eig[k]
        M = V.conj().T.dot(phase(env, self.cfg, H, s)).dot(V)
        n = s.N
        R = env.arr(np.zeros((n, n)), "complex")
        if not env.sym:
            R = R.astype(complex)
        for a in range(n):
            for b in range(n):
                xa, xb = lam[a] * tau, lam[b] * tau
                if a == b:
                    f = env.exp(xa * (-1j))
                else:
                    dgap = env.abs(xa - xb)
                    if bool(dgap < 1e-10):
                        if env.sym:
                            env.assume(lam[a] == lam[b])
                        f = env.exp(xb * (-1j))
                    else:
                        f = (env.exp(xb * (-1j)) - env.exp(xa * (-1j))) / ((xb - xa) * (-1j))
                R[a, b] = M[a, b] * tau * f
        return V.dot(R).dot(V.conj().T)

    def fwd(self, k):
        X = self.s.initial
        for i in range(k):
            X = self.P[i].dot(X)
        return X

    def onwd(self, k):
        """slots k .. last"""
        X = None
        for i in range(k, self.s.nts):
            X = self.P[i] if X is None else self.P[i].dot(X)
        return X

    def onto_target(self):
        env, s = self.env, self.s
        if self.cfg["dyn"] == "UNIT" or self.cfg.get("state"):
            return s.target.conj().T
        return env.inv(s.target)

    def onto(self, k):
        X = self.onto_target()
        for i in range(self.s.nts - 1, k - 1, -1):
            X = X.dot(self.P[i])
        return X

    def overlap(self):
        return self.env.tr(self.s.target.conj().T.dot(self.fwd(self.s.nts)))

    def norm(self):
        return self.env.tr(self.s.target.conj().T.dot(self.s.target))

    def dfinal(self, k, j):
        X = self.dP(k, j).dot(self.fwd(k))
        return X if k + 1 == self.s.nts else self.onwd(k + 1).dot(X)

    def fid_err(self):
        env, cfg, s = self.env, self.cfg, self.s
        if cfg["fid"] == "UNIT":
            f = self.overlap()
            nrm = self.norm().real
            env.nonzero(nrm)
            F = env.abs(f) / nrm if cfg.get("phopt", "PSU") == "PSU" else f.real / nrm
            return env.abs(1 - F)
        d = s.target - self.fwd(s.nts)
        return env.tr(d.conj().T.dot(d)).real * self.scale()

    def scale(self):
        return 1.0 / (2.0 * self.s.N)

    def grad(self, k, j):
        env, cfg, s = self.env, self.cfg, self.s
        dX = self.dfinal(k, j)
        if cfg["fid"] == "UNIT":
            f = self.overlap()
            df = env.tr(s.target.conj().T.dot(dX))
            nrm = self.norm().real
            env.nonzero(nrm)
            if cfg.get("phopt", "PSU") == "PSU":
                r = env.abs(f)
                env.nonzero(r)
                F = r / nrm
                dF = (f.conjugate() * df).real / r / nrm
            else:
                F = f.real / nrm
                dF = df.real / nrm
            return dF if bool(F >= 1) else -dF
        d = s.target - self.fwd(s.nts)
        return -2 * self.scale() * env.tr(d.conj().T.dot(dX)).real
