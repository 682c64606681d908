"""C08 unitary and symplectic structure"""
import numpy as np
from . import dynlib as dl

BOUNDS = ("2x2 systems (4x4 symplectic), 1-2 slots, 1 control; Hermitian generators with "
          "symbolic spectrum and eigenvectors (general up to column phases), real symmetric "
          "symplectic generators; initial and target unitaries general 2x2")
ASSUMPTIONS = ["the exponential of a skew-Hermitian matrix is unitary, of a Hamiltonian matrix "
               "symplectic"]
WITNESSES = 3


def configs(tier):
    out = []
    for dt in ("n", "q"):
        for nts in (1, 2):
            for mem in (0, 1):
                for ck in ("unitary", "fid", "phase", "zero"):
                    for ph in ("PSU", "SU"):
                        for init in (0, 1):
                            if ck == "unitary" and ph == "SU":
                                continue
                            if ck == "fid" and (nts > 1 or init):
                                continue
                            if ck in ("phase", "zero") and nts > 1 and \
                                    (init or tier == "quick"):
                                continue
                            if tier == "quick" and ck == "unitary" and nts > 1 \
                                    and (init or mem != (dt == "q")):
                                continue
                            if ck == "phase" and init and ph == "PSU":
                                continue
                            out.append(dict(kind="diag", what=ck, dtype=dt, nts=nts, nc=1,
                                            mem=mem, phopt=ph, uinit=init, dyn="UNIT",
                                            prop="DIAG", fid="UNIT", tau=0))
        for prop in ("FRECHET", "AUG_MAT", "APPROX"):
            for mem in (0, 1):
                out.append(dict(kind="expm", dtype=dt, nts=2, nc=2, mem=mem, dyn="UNIT",
                                prop=prop, tau=1,
                                fid="TDAPPROX" if prop == "APPROX" else "TRACEDIFF"))
                for n in (2, 4):
                    for pa in ("postop", "preop"):
                        out.append(dict(kind="expm", dtype=dt, nts=2, nc=1, mem=mem,
                                        dyn="SYMPL", prop=prop, tau=0, N=n, phase=pa,
                                        fid="TDAPPROX" if prop == "APPROX"
                                        else "TRACEDIFF"))
    for fid in ("TRACEDIFF", "UNIT", "TDAPPROX"):
        for state in (0, 1):
            for dt in ("n", "q"):
                dyn = "UNIT" if fid == "UNIT" else "GEN_MAT"
                out.append(dict(kind="reach", dyn=dyn, fid=fid, dtype=dt, nts=2, nc=1,
                                prop="APPROX" if fid == "TDAPPROX" else "FRECHET",
                                state=state, phopt="SU" if fid == "UNIT" else None, tau=0))
    for n in (1, 2, 3):
        out.append(dict(kind="omega", modes=n))
    return out


def umat(env, nm, full=True):
    """general 2x2 unitary (full) or one up to column phases"""
    th, ph = env.real(nm + "th"), env.real(nm + "ph")
    c, s = env.cos(th), env.sin(th)
    z = env.exp(ph * 1j)
    m = np.empty((2, 2), dtype=object)
    m[0, 0], m[1, 1] = c, c
    m[0, 1] = -s * z.conjugate()
    m[1, 0] = s * z
    if full:
        a, b = env.exp(env.real(nm + "a") * 1j), env.exp(env.real(nm + "b") * 1j)
        m[0, 0], m[1, 0] = m[0, 0] * a, m[1, 0] * a
        m[0, 1], m[1, 1] = m[0, 1] * b, m[1, 1] * b
    return env.arr(m, "complex")


def eye(env, n):
    return env.arr(np.eye(n))


def unitary(env, label, U):
    U = env.mat(U)
    env.eq(label + " U*U'", U.dot(U.conj().T), eye(env, U.shape[0]))
    env.eq(label + " U'*U", U.conj().T.dot(U), eye(env, U.shape[0]))


def diag_system(env, cfg, target=None):
    s = dl.Sys()
    s.N, s.nts, s.nc = 2, cfg["nts"], 1
    s.u = env.rarr("u", (s.nts, 1))
    B = env.herm("B", 2)
    s.ctrl = [[B]] * s.nts
    s.drift = []
    for k in range(s.nts):
        lam = [env.real("l%d_0" % k), env.real("l%d_1" % k)]
        env.assume(lam[0] <= lam[1])
        V = umat(env, "V%d" % k, False)
        L = np.empty((2, 2), dtype=object)
        L[...] = 0
        L[0, 0], L[1, 1] = lam
        H = V.dot(env.arr(L)).dot(V.conj().T)
        s.drift.append(H - B * s.u[k, 0])
        env.known_eig(H, env.arr(np.array(lam, dtype=object)), V)
    s.T = env.pos("T")
    s.taus = [s.T / s.nts] * s.nts
    s.tau = None
    s.initial = umat(env, "I") if cfg.get("uinit") else eye(env, 2)
    s.target = umat(env, "W") if target is None else target
    return s


def harness(env, cfg):
    if cfg["kind"] == "omega":
        return omega(env, cfg)
    if cfg["kind"] == "expm":
        return expm(env, cfg)
    if cfg["kind"] == "reach":
        return reach(env, cfg)
    cfg = dict(cfg, tdd=1)
    s = diag_system(env, cfg)
    d = dl.build(env, cfg, s)
    w = cfg["what"]
    if w == "unitary":
        d.compute_evolution()
        for k in range(s.nts):
            g = env.mat(d.dyn_gen[k])
            env.eq("generator %d Hermitian" % k, g, g.conj().T)
            unitary(env, "propagator %d" % k, d.prop[k])
        for k in range(s.nts + 1):
            unitary(env, "fwd_evo %d" % k, d.fwd_evo[k])
            unitary(env, "onto_evo %d" % k, d.onto_evo[k])
    elif w == "fid":
        e = d.fid_computer.get_fid_err()
        env.ensure("error not negative", e >= 0 if env.sym else e >= -1e-9)
        f = d.fid_computer.get_fidelity()
        if cfg["phopt"] == "PSU":
            env.ensure("fidelity not negative", f >= 0 if env.sym else f >= -1e-9)
    elif w == "phase":
        e = d.fid_computer.get_fid_err()
        z = env.exp(env.real("alpha") * 1j)
        s2 = dl.Sys()
        s2.__dict__.update(s.__dict__)
        s2.target = s.target * z
        if cfg["phopt"] == "SU":
            s2.initial = s.initial * z
        d2 = dl.build(env, cfg, s2)
        env.eq("error under a global phase", d2.fid_computer.get_fid_err(), e)
    else:
        d.compute_evolution()
        U = env.mat(d.full_evo)
        if cfg["phopt"] == "PSU":
            U = U * env.exp(env.real("alpha") * 1j)
        s2 = dl.Sys()
        s2.__dict__.update(s.__dict__)
        s2.target = U
        d2 = dl.build(env, cfg, s2)
        env.eq("error of a reached target", d2.fid_computer.get_fid_err(), 0)
        g = d2.fid_computer.get_fid_err_gradient()
        if cfg["phopt"] == "SU":
            for k in range(s.nts):
                env.eq("gradient at a reached target", g[k, 0], 0)


def expm(env, cfg):
    s = dl.system(env, cfg)
    if cfg["dyn"] == "SYMPL":
        for m in [s.drift[0]] + list(s.ctrl[0]):
            for i in range(s.N):
                for j in range(i):
                    m[i, j] = m[j, i]
    args = env.expm_args()
    d = dl.build(env, cfg, s)
    d.compute_evolution()
    om = dl.omega(env, s.N)
    if args is None:
        for k in range(s.nts):
            P = env.mat(d.prop[k])
            if cfg["dyn"] == "UNIT":
                unitary(env, "propagator", P)
            else:
                env.eq("propagator symplectic", P.T.dot(om).dot(P), om)
                env.eq("propagator real", P, P.conj())
        return
    args = list(args)
    env.ensure("exponentials taken", len(args) >= s.nts)
    seen = []
    for A in args:
        n = s.N
        if A.shape[0] == 2 * n:      # augmented matrix: diagonal blocks
            A = A[:n, :n]
        if cfg["dyn"] == "UNIT":
            env.eq("exponent skew-Hermitian", A.conj().T + A, A * 0)
        else:
            env.eq("exponent Hamiltonian", A.T.dot(om) + om.dot(A), A * 0)
            env.eq("exponent real", A, A.conj())
        seen.append(env.expm(A))
    for k in range(s.nts):
        P = env.mat(d.prop[k])
        best = [i for i, X in enumerate(seen)
                if all((x - y).t == {} for x, y in zip(P.reshape(-1), X.reshape(-1)))]
        env.ensure("propagator %d is one of these exponentials" % k, bool(best))


def reach(env, cfg):
    """the error vanishes when the target is what the pulse produces"""
    s = dl.system(env, cfg)
    d = dl.build(env, cfg, s)
    d.compute_evolution()
    U = env.mat(d.full_evo)
    s2 = dl.Sys()
    s2.__dict__.update(s.__dict__)
    s2.target = U
    if cfg["fid"] == "UNIT":
        nrm = env.tr(U.conj().T.dot(U))
        env.nonzero(nrm.real)
    d2 = dl.build(env, cfg, s2)
    env.eq("error of a reached target", d2.fid_computer.get_fid_err(), 0)
    if cfg["fid"] == "TRACEDIFF":
        g = d2.fid_computer.get_fid_err_gradient()
        for k in range(s.nts):
            env.eq("gradient at a reached target", g[k, 0], 0)


def omega(env, cfg):
    import qutip_qtrl.symplectic as sy
    n = cfg["modes"]
    o = np.array(sy.calc_omega(n), dtype=float)
    env.eq("antisymmetric", env.arr(o.T), env.arr(-o))
    env.eq("square", env.arr(o.dot(o)), env.arr(-np.eye(2 * n)))
