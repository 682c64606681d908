"""C05 finite difference gradients"""
from . import dynlib as dl

BOUNDS = ("2x2 systems (3x3 with 2 slots), 1-3 slots, 1-2 controls, from the start or after other amplitudes; all "
          "entries, amplitudes and the step symbolic.")


def configs(tier):
    out = []
    for dyn in ("GEN_MAT", "UNIT", "SYMPL"):
        for dt in ("n", "q"):
            for state in (0, 1):
                for nts, nc in ((1, 2), (2, 1), (2, 2), (3, 1)):
                    for mem in (0, 1):
                        if dyn == "SYMPL" and state:
                            continue
                        out.append(dict(dyn=dyn, prop="APPROX", fid="TDAPPROX", dtype=dt,
                                        state=state, nts=nts, nc=nc, tau=0, mem=mem))
                        if nts > 1 and not state:
                            # drift and controls given per slot, slots of unequal length
                            out.append(dict(out[-1], tdc=1, tdd=1, tau=1))
                        if nts < 3 and nc < 2 or nts < 2:
                            # the gradient is asked for after other amplitudes were evaluated
                            out.append(dict(dyn=dyn, prop="APPROX", fid="TDAPPROX", dtype=dt,
                                            state=state, nts=nts, nc=nc, tau=0, mem=mem,
                                            before="F" if mem else "G"))
        for dt in ("n", "q"):
            for state in (0, 1):
                if dyn != "SYMPL":
                    out.append(dict(dyn=dyn, prop="APPROX", fid="TDAPPROX", dtype=dt, state=state,
                                    nts=2, nc=1, tau=1, mem=0, N=3))
    return out


def harness(env, cfg):
    s = dl.system(env, cfg)
    d = dl.build(env, cfg, s, init=False)
    eps = env.pos("eps", 0, 0.5)
    d.fid_computer.epsilon = eps
    if cfg.get("before"):
        d.initialize_controls(env.rarr("before", (s.nts, s.nc)))
        d.fid_computer.get_fid_err()
        if cfg["before"] == "G":
            d.fid_computer.get_fid_err_gradient()
        d.update_ctrl_amps(s.u.copy())
    else:
        d.initialize_controls(s.u.copy())
    g = d.fid_computer.get_fid_err_gradient()
    sp = dl.Spec(env, cfg, s)
    e0 = sp.fid_err()
    env.eq("fid_err", d.fid_computer.get_fid_err(), e0)
    for k in range(s.nts):
        for j in range(s.nc):
            u2 = s.u.copy()
            u2[k, j] = u2[k, j] + eps
            e1 = dl.Spec(env, cfg, s, u2).fid_err()
            env.eq("grad[%d,%d] * step" % (k, j), g[k, j] * eps, e1 - e0)
