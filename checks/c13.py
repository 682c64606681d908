"""C13 the optimisation result describes the run: start, end and what happened"""
import numpy as np
from . import optlib as ol
from . import dynlib as dl

BOUNDS = ("2x2 systems, 1-2 slots, 1-2 controls, scripts of up to 4 (quick) / 6 (thorough) "
          "minimiser calls, one or two runs; all generators, targets, amplitudes, times and "
          "parameter values the minimiser tries are symbolic; all five optimisers")
OUTSIDE = ("scipy's minimisers (arbitrary script of calls); final gradient norm (not defined "
           "when the last call was not a gradient call)")
WITNESSES = 3
OPTS = ["Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrab", "OptimizerCrabFmin"]


def configs(tier):
    out = []
    base = [("GEN_MAT", "FRECHET", "TRACEDIFF", 2, 2), ("UNIT", "FRECHET", "UNIT", 2, 1),
            ("SYMPL", "FRECHET", "TRACEDIFF", 1, 2), ("UNIT", "DIAG", "UNIT", 1, 1),
            ("GEN_MAT", "AUG_MAT", "TRACEDIFF", 1, 1), ("GEN_MAT", "APPROX", "TDAPPROX", 1, 1)]
    ends = ["ret", "goal", "calls", "wall"]
    scr = ["ff1", "fcf", "fn", "fgf", "fsc"]
    if tier == "thorough":
        scr += ["ffgcf1", "fmfcfc", "gfpgfn", "cfcmsc", ""]
    for b, (dyn, prop, fid, nts, nc) in enumerate(base):
        for o in OPTS:
            for i, sc in enumerate(scr):
                for j, e in enumerate(ends):
                    if tier == "quick" and (i + j + b) % 3 and not (b < 2 and i < 2):
                        continue
                    if e == "wall" and "c" not in sc or e == "goal" and j and sc == "":
                        continue
                    if prop == "DIAG" and len(sc) > 4:
                        continue
                    if "g" in sc and "Crab" in o:
                        continue
                    if "g" in sc and (prop == "DIAG" or fid == "UNIT"):
                        continue
                    out.append(dict(opt=o, dyn=dyn, prop=prop, fid=fid, script=sc, end=e,
                                    nts=nts, nc=nc, dtype="nq"[(i + j) % 2],
                                    tau=int(b % 2), again=(i == 1 and prop != "DIAG"), stats=(j % 2),
                                    nonit=int(i % 2 == 1 and o in ("Optimizer",
                                                                   "OptimizerCrab"))))
    return out


def describe(env, cfg, c, s, d, r, u0, u1, m, label):
    a, b = dl.Spec(env, c, s, u0), dl.Spec(env, c, s, u1)
    n = s.nts
    env.eq(label + "initial amplitudes", r.initial_amps, u0)
    env.eq(label + "initial evolution", r.evo_full_initial, a.fwd(n))
    env.eq(label + "initial error", r.initial_fid_err, a.fid_err())
    env.eq(label + "final amplitudes", r.final_amps, u1)
    env.eq(label + "final evolution", r.evo_full_final, b.fwd(n))
    env.eq(label + "final error", r.fid_err, b.fid_err())
    env.ensure(label + "final evolution is a quantum object of the system's dims",
               isinstance(r.evo_full_final, env.Qobj)
               and r.evo_full_final.dims == d.sys_dims)
    if c["fid"] == "UNIT":
        nrm = b.norm().real
        env.nonzero(nrm)
        env.eq(label + "fidelity", r.fidelity, env.abs(b.overlap()) / nrm)
    t = 0
    env.ensure(label + "one time per slot boundary", np.shape(r.time) == (n + 1,))
    env.eq(label + "time[0]", r.time[0], 0)
    for k in range(n):
        t = s.taus[k] + t
        env.eq(label + "time[%d]" % (k + 1), r.time[k + 1], t)
    env.ensure(label + "objective calls", r.num_fid_func_calls == m.nf)
    env.ensure(label + "iterations", r.num_iter == m.ncb)
    if cfg["stats"]:
        env.ensure(label + "statistics of the run are kept",
                   r.stats is not None and r.stats.num_fidelity_func_calls == m.nf)


def harness(env, cfg):
    s, c, d, opt, tc = ol.setup(env, cfg, fake=False)
    if cfg["stats"]:
        import qutip_qtrl.stats as st
        opt.stats = d.stats = st.Stats()
    tc.fid_err_targ = -np.inf
    tc.min_gradient_norm = -np.inf
    if cfg["end"] == "goal":
        tc.fid_err_targ = np.inf
    elif cfg["end"] == "calls":
        tc.max_fid_func_calls = 1
    elif cfg["end"] == "wall":
        tc.max_wall_time = -1.0
    m = ol.Mini(env, cfg, opt, cfg["script"])
    with m.patched():
        r = opt.run_optimization()
    u1 = ol.amps_of(cfg, s, last_point(m))
    env.ensure("the minimiser is run once", m.runs == 1)
    describe(env, cfg, c, s, d, r, s.u, u1, m, "")
    env.ensure("optimiser kept", r.optimizer is opt)
    for f in ("goal_achieved", "max_fid_func_exceeded", "wall_time_limit_exceeded"):
        w = {"goal": "goal_achieved", "calls": "max_fid_func_exceeded",
             "wall": "wall_time_limit_exceeded"}.get(cfg["end"])
        if early(m) is not None:
            env.ensure("result." + f, getattr(r, f) == (f == w))
    if not cfg["again"]:
        return
    # a second run starts where the first ended and leaves its result alone
    tc.fid_err_targ = -np.inf
    tc.max_fid_func_calls = 1e10
    tc.max_wall_time = 1e10
    m2 = ol.Mini(env, cfg, opt, "ff")
    m2.nx = 50
    m2.xs = list(m.xs)
    with m2.patched():
        r2 = opt.run_optimization()
    describe(env, cfg, c, s, d, r2, u1, ol.amps_of(cfg, s, last_point(m2)), m2, "second run: ")
    env.ensure("second run: not terminated early", not r2.goal_achieved
               and not r2.max_fid_func_exceeded and not r2.wall_time_limit_exceeded)
    describe(env, cfg, c, s, d, r, s.u, u1, m, "first result afterwards: ")


def early(m):
    return m.log[-1][2] if m.log and isinstance(m.log[-1][2], Exception) else None


def last_point(m):
    """where the run ended: the last evaluated point if terminated by the optimiser, else
    the point returned"""
    if early(m) is None:
        return m.ret
    xs = [x for o, x, v in m.log if o != "c"]
    return xs[-1] if xs else m.x0
