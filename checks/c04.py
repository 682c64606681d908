"""C04 exact gradients"""
from . import dynlib as dl
from .c08 import diag_system

BOUNDS = ("2x2 systems (3x3 for Frechet), 1-2 slots (3 in thorough), 1-2 controls, operator and state "
          "transfer; all entries symbolic.  Derivative of the slot propagator: Frechet "
          "derivative (linear, opaque) or divided differences of the spectrum.")


def configs(tier):
    out = []
    for dyn, prop in (("GEN_MAT", "FRECHET"), ("GEN_MAT", "AUG_MAT"), ("UNIT", "DIAG"),
                      ("UNIT", "FRECHET"), ("UNIT", "AUG_MAT"), ("SYMPL", "FRECHET"),
                      ("SYMPL", "AUG_MAT")):
        for fid, ph in (("TRACEDIFF", None), ("UNIT", "PSU"), ("UNIT", "SU")):
            if fid == "UNIT" and dyn != "UNIT":
                continue
            for dt in ("n", "q"):
                for state in (0, 1):
                    for nts in (1, 2):
                        for cache in (0, 1):
                            if dyn == "SYMPL" and state:
                                continue
                            c = dict(dyn=dyn, prop=prop, fid=fid, dtype=dt, state=state,
                                     nts=nts, nc=2 if nts == 1 else 1, tau=0,
                                     cache_prop_grad=cache)
                            if ph:
                                c["phopt"] = ph
                            if prop == "DIAG" and nts == 2:
                                # degenerate spectra: nts=1, and thorough
                                c["gap"] = 1
                                if tier == "thorough" and cache:
                                    c["gap"] = 0
                            out.append(c)
                            if nts == 2 and not state:
                                # drift and controls given per slot
                                out.append(dict(c, tdc=1, tdd=1, tau=1))
    for dyn, fid, ph in (("GEN_MAT", "TRACEDIFF", None), ("UNIT", "UNIT", "PSU"),
                         ("UNIT", "UNIT", "SU"), ("UNIT", "TRACEDIFF", None)):
        for dt in ("n", "q"):
            for state in (0, 1):
                # larger systems
                if ph == "PSU" and not state and tier == "quick":
                    continue
                out.append(dict(dyn=dyn, prop="FRECHET", fid=fid, dtype=dt, state=state, nts=1,
                                nc=1, tau=0, cache_prop_grad=1, N=3))
                if ph:
                    out[-1]["phopt"] = ph
                out.append(dict(out[-1], nts=2, tau=1))
    # generators given by their spectrum, which may be degenerate
    for fid, ph in (("TRACEDIFF", None), ("UNIT", "PSU"), ("UNIT", "SU")):
        for dt in ("n", "q"):
            out.append(dict(dyn="UNIT", prop="DIAG", fid=fid, dtype=dt, state=0, nts=1,
                            nc=1, tau=0, cache_prop_grad=int(dt == "n"), tdd=1, known=1))
            if ph:
                out[-1]["phopt"] = ph
    return out


def harness(env, cfg):
    s = diag_system(env, cfg) if cfg.get("known") else dl.system(env, cfg)
    sp = dl.Spec(env, cfg, s)
    if cfg.get("gap"):
        for k in range(s.nts):
            lam = sp.eig[k][0]
            for i in range(s.N - 1):
                env.assume((lam[i + 1] - lam[i]) * s.taus[k] > 1e-9)
    d = dl.build(env, cfg, s)
    g = d.fid_computer.get_fid_err_gradient()
    env.ensure("gradient shape", g.shape == (s.nts, s.nc))
    for k in range(s.nts):
        for j in range(s.nc):
            if cfg["cache_prop_grad"]:
                env.eq("prop_grad[%d,%d]" % (k, j), d.prop_grad[k, j], sp.dP(k, j))
            env.eq("fid_err_grad[%d,%d]" % (k, j), g[k, j], sp.grad(k, j))
