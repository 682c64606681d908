"""C18 every option of the pulse optimisation functions reaches the object it configures"""
import logging
import warnings
import numpy as np
import qutip_qtrl.pulseoptim as po
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.errors as errors
from . import optlib as ol
from . import dynlib as dl

BOUNDS = ("2x2 systems, 1-3 slots, 1-2 controls; the numbers given as options (limits, "
          "tolerances, bounds, scaling, offset, times, coefficients, arbitrary attributes), the "
          "generators and the targets symbolic; all five functions, the types of dynamics, "
          "propagator, fidelity, pulse and method listed, one or two calls")
OUTSIDE = ("scipy's minimisers (an arbitrary script of calls); log output; the content of the "
           "generated pulses (C10, C11) and of the minimiser's problem (C14), against which the "
           "options are compared here")
FN = {"pulse": "optimize_pulse", "unitary": "optimize_pulse_unitary", "crab": "opt_pulse_crab",
      "crabu": "opt_pulse_crab_unitary", "create": "create_pulse_optimizer"}
CRAB = ("crab", "crabu")
WITNESSES = 2


def configs(tier):
    out = []
    big = tier == "thorough"

    def add(**k):
        c = dict(fn="pulse", topic="system", dyn="GEN_MAT", nts=1, nc=1, alg="GRAPE", fid="DEF")
        c.update(k)
        if c["fn"] in ("unitary", "crabu"):
            c["dyn"] = "UNIT"
        if c["fn"] in CRAB:
            c["alg"] = "CRAB"
        if c not in out:
            out.append(c)
    # the system, the types and their parameters
    for dyn, prop, fid in (("GEN_MAT", "DEF", "DEF"), ("GEN_MAT", "AUG_MAT", "TRACEDIFF"),
                           ("GEN_MAT", "APPROX", "TDAPPROX"), ("GEN_MAT", "FRECHET", "TD_APPROX"),
                           ("UNIT", "DEF", "DEF"), ("UNIT", "FRECHET", "UNIT"),
                           ("UNIT", "FRECHET", "TRACEDIFF"), ("SYMPL", "DEF", "DEF"),
                           ("GEN_MAT", "FRECHET", "tracediff")):
        for tau in (0, 1):
            add(dyn=dyn, prop=prop, fid=fid, tau=tau, nts=2 - (dyn == "UNIT" and prop == "DEF"),
                nc=2 if dyn == "GEN_MAT" else 1, tdd=int(tau and dyn == "GEN_MAT"))
            if tau or big:
                add(dyn=dyn, prop=prop, fid=fid, tau=tau, alg="CRAB", fn="pulse")
        if dyn != "UNIT" or prop != "DEF":
            add(fn="crab", dyn=dyn, prop=prop, fid=fid, tau=1)
        add(fn="create", dyn=dyn, prop=prop, fid=fid, tau=1)
    for fn in ("unitary", "crabu"):
        for ph in (None, "SU", "PSU", "params", "both"):
            add(fn=fn, phopt=ph, tau=int(ph == "SU"))
    # limits, tolerances, bounds
    for fn in FN:
        for meth in (("fmin", "DEF", "Nelder-Mead") if fn in CRAB else
                     ("DEF", "FMIN_BFGS", "LBFGSB", "fmin_l_bfgs_b", "BFGS")):
            for b in ("none", "scalar", "list", "zero", "lo", "mixed"):
                if not big and b not in ("scalar", "list") and meth not in ("DEF", "fmin"):
                    continue
                add(fn=fn, topic="limits", meth=meth, bnd=b, nc=2,
                    mp=["none", "mp", "op", "both"][len(out) % 4])
    for alg in ("grape", "crab", "Crab", "CRAB"):
        for fn in ("pulse", "unitary", "create"):
            add(fn=fn, topic="limits", alg=alg, meth="DEF", bnd="scalar", nc=2, mp="both")
            add(fn=fn, topic="limits", alg=alg, meth="BFGS", bnd="none", nc=1, mp="none")
    # initial pulses
    for fn in ("pulse", "unitary", "create"):
        for g in ("LIN", "ZERO", "RND", "SINE"):
            for b in ("none", "scalar", "list", "zero", "lo", "inf", "mixed"):
                for par in ("none", "own", "over"):
                    if par != "none" and (g != "LIN" or b in ("mixed", "inf", "list")) and not big:
                        continue
                    if fn == "unitary" and g == "LIN" and not big and b in (
                            "list", "mixed", "zero", "inf"):
                        continue
                    if g == "SINE" and (b != "none" or fn != "pulse" and not big):
                        continue
                    if g == "RND" and fn != "pulse" and not big and b != "none":
                        continue
                    add(fn=fn, topic="pulses", gen=g, bnd=b, par=par,
                        nts=1 if g == "RND" and b in ("list", "mixed", "inf") else 2,
                        nc=2 if b in ("list", "mixed", "inf") or g != "RND" else 1)
    for fn in CRAB + ("pulse",):
        for b in ("none", "scalar", "list", "zero", "lo", "inf", "mixed"):
            for g in (None, "LIN", "ZERO"):
                for par in ("none", "own", "over"):
                    if g is None and par == "over" or not big and par != "none" and b in (
                            "zero", "lo", "mixed"):
                        continue
                    if not big and g == "LIN" and b in ("list", "inf", "mixed") and (
                            par != "none" or fn != "crab" and b != "list"):
                        continue
                    add(fn=fn, alg="CRAB", topic="crab", gen=g, bnd=b, par=par, nts=2,
                        nc=2 if b in ("list", "mixed", "inf") else 1,
                        act=["MODULATE", "ADD"][len(out) % 2], ramp=int(len(out) % 3 == 0),
                        ncoef=1 + int(g is None))
    for dep in ("optim_alg", "max_metric_corr", "accuracy_factor", "phase_option",
                "fid_err_scale_factor", "amp_update_mode"):
        for fn in ("pulse", "unitary", "create"):
            if fn == "unitary" and dep in ("phase_option", "fid_err_scale_factor"):
                continue
            for both in (0, 1, 2):
                add(fn=fn, topic="deprecated", dep=dep, both=both,
                    dyn="UNIT" if dep == "phase_option" else "GEN_MAT")
    for fn in FN:
        for w in ("attrs", "caller", "files", "errors", "stats"):
            if w == "files" and fn == "create":
                continue
            add(fn=fn, topic=w, nc=2, nts=2)
    add(fn="pulse", topic="caller", nc=2, nts=2, alg="CRAB")
    add(fn="create", topic="caller", nc=2, nts=2, alg="CRAB")
    return out


class Run:
    """one call of the function under test with the options given"""

    def __init__(self, env, cfg, s, opts, script="", file=None):
        fn = cfg["fn"]
        unit = fn in ("unitary", "crabu")
        self.m = ol.Mini(env, cfg, None, script)
        kw = dict(opts)
        q = env.qobj
        drift = [q(a) for a in s.drift] if cfg.get("tdd") else q(s.drift[0])
        ctrls = [q(a) for a in s.ctrl[0]]
        self.given = (drift, ctrls, q(s.initial), q(s.target))
        names = ("H_d", "H_c", "U_0", "U_targ") if unit else (
            "drift", "ctrls", "initial", "target")
        kw.update(zip(names, self.given))
        if s.tau is not None:
            kw["tau"] = env.arr(s.tau)
        else:
            kw["num_tslots"], kw["evo_time"] = s.nts, s.T
        if not unit:
            kw.setdefault("dyn_type", cfg["dyn"])
        if fn not in CRAB:
            kw.setdefault("alg", cfg["alg"])
        kw.setdefault("fid_err_targ", -np.inf)
        with warnings.catch_warnings(), self.m.patched():
            warnings.simplefilter("ignore")
            r = getattr(po, FN[fn])(**kw)
            if fn == "create":
                self.opt = r
                d = r.dynamics
                d.init_timeslots()
                g = r.pulse_generator
                amps = env.arr(np.zeros((s.nts, s.nc)), "real")
                for j in range(s.nc):
                    p = g[j] if isinstance(g, list) else g
                    if cfg["alg"].upper() == "CRAB":
                        p.init_pulse()
                    amps[:, j] = p.gen_pulse()
                d.initialize_controls(amps)
                r = r.run_optimization()
        self.r = r
        self.opt = r.optimizer
        self.d = self.opt.dynamics
        self.tc = self.opt.termination_conditions


def fid_of(cfg):
    f = cfg["fid"].upper()
    if f == "DEF":
        return "UNIT" if cfg["dyn"] == "UNIT" else "TRACEDIFF"
    return "TDAPPROX" if f == "TD_APPROX" else f


def prop_of(cfg):
    p = cfg.get("prop", "DEF")
    if p != "DEF":
        return p
    if cfg["alg"].upper() == "CRAB":
        return "APPROX"
    return {"UNIT": "DIAG"}.get(cfg["dyn"], "FRECHET")


def system(env, cfg, idle=False):
    """idle: nothing evolves, the amplitudes are all that matters"""
    if not idle:
        return dl.system(env, dict(cfg, fid=fid_of(cfg), init=0))
    s = dl.Sys()
    s.nts, s.nc, s.N = cfg["nts"], cfg["nc"], 2
    z = env.arr(np.zeros((2, 2)))
    s.drift, s.ctrl = [z] * s.nts, [[z] * s.nc] * s.nts
    s.initial = s.target = env.arr(np.eye(2))
    s.tau = [env.pos("tau%d" % k) for k in range(s.nts)] if cfg.get("tau") else None
    if s.tau is None:
        s.T = env.pos("T")
    s.taus = s.tau or [s.T / s.nts] * s.nts
    return s


def harness(env, cfg):
    globals()["t_" + cfg["topic"]](env, cfg)


# ---- the system -----------------------------------------------------------------
def t_system(env, cfg):
    crab = cfg["alg"].upper() == "CRAB"
    s = system(env, cfg)
    o = {}
    sc = {"pulse": dict(prop_type=cfg.get("prop", "DEF"), fid_type=cfg["fid"])}
    if cfg["fn"] in ("pulse", "create", "crab"):
        o.update(prop_type=cfg.get("prop", "DEF"), fid_type=cfg["fid"])
    fp = {}
    fid = fid_of(cfg)
    scale = None
    if fid != "UNIT":
        scale = env.pos("scf")
        fp["scale_factor"] = scale
    phopt = "PSU"
    if cfg["fn"] in ("unitary", "crabu"):
        ph = cfg.get("phopt")
        if ph in ("SU", "PSU"):
            o["phase_option"] = phopt = ph
        elif ph == "params":
            fp["phase_option"] = phopt = "SU"
        elif ph == "both":
            fp["phase_option"] = phopt = "SU"
            o["phase_option"] = "PSU"
    elif fid == "UNIT" and cfg.get("tau"):
        fp["phase_option"] = phopt = "SU"
    if fp:
        o["fid_params"] = dict(fp)
    if crab:
        o["alg_params"] = dict(num_coeffs=1, crab_pulse_params=dict(randomize_freqs=False))
    else:
        o["init_pulse_type"] = "ZERO"
        off = o["pulse_offset"] = env.real("off")
    run = Run(env, cfg, s, o, "" if prop_of(cfg) == "DIAG" else "f" if crab else "ff")
    r, d = run.r, run.d
    u0 = r.initial_amps
    env.ensure("amplitudes have one row per slot", np.shape(u0) == (s.nts, s.nc))
    if not crab:
        env.eq("initial amplitudes", u0, env.arr(np.ones((s.nts, s.nc))) * off)
        env.eq("final amplitudes are those the minimiser returned", r.final_amps,
               ol.amps_of(dict(opt="Optimizer"), s, run.m.ret))
    c = dict(cfg, prop=prop_of(cfg), fid=fid, phopt=phopt)
    sp0, sp1 = dl.Spec(env, c, s, u0), dl.Spec(env, c, s, r.final_amps)
    env.eq("initial evolution", r.evo_full_initial, sp0.fwd(s.nts))
    env.eq("final evolution", r.evo_full_final, sp1.fwd(s.nts))
    t = 0
    for k in range(s.nts):
        t = s.taus[k] + t
        env.eq("time %d" % k, r.time[k + 1], t)
    for label, got, sp in (("initial", r.initial_fid_err, sp0), ("final", r.fid_err, sp1)):
        if fid == "UNIT":
            nrm = sp.norm().real
            env.nonzero(nrm)
            ov = sp.overlap()
            f = ov.real if phopt == "SU" else env.abs(ov)
            env.eq(label + " error", got, env.abs(1 - f / nrm))
        else:
            e = sp.target_diff() if hasattr(sp, "target_diff") else None
            D = env.mat(run.given[3].full()) - sp.fwd(s.nts)
            env.eq(label + " error", got, scale * env.tr(D.conj().T.dot(D)).real)
    env.ensure("propagator type", type(d.prop_computer).__name__ == dl.PROPS[prop_of(cfg)])
    env.ensure("fidelity type", type(d.fid_computer).__name__ == dl.FIDS[fid])


# ---- limits, tolerances, bounds ------------------------------------------------
def bounds(env, cfg):
    b, nc, inf = cfg["bnd"], cfg["nc"], float("inf")
    lo = [env.real("lb%d" % j) for j in range(nc)]
    hi = [env.real("ub%d" % j) for j in range(nc)]
    for a, z in zip(lo, hi):
        env.assume(a < z)
    if b == "none":
        return None, None
    if b == "scalar":
        return lo[0], hi[0]
    if b == "list":
        return lo, hi
    if b == "zero":
        env.assume(hi[0] > 0)
        return 0.0, hi[0]
    if b == "lo":
        return lo[0], None
    if b == "inf":
        return [lo[0], -inf][:nc], [hi[0], inf][:nc]
    env.assume(lo[0] < hi[-1])
    return lo[0], hi[:nc - 1] + [inf]


def per(b, j):
    v = b[j] if isinstance(b, list) else b
    return None if isinstance(v, float) and np.isinf(v) else v


def give(o, lb, ub):
    if lb is not None:
        o["amp_lbound"] = lb
    if ub is not None:
        o["amp_ubound"] = ub


def t_limits(env, cfg):
    crab = cfg["alg"].upper() == "CRAB"
    s = system(env, cfg, idle=True)
    lb, ub = bounds(env, cfg)
    o = dict(fid_err_targ=-env.pos("targ"), max_iter=env.int("maxit", 1, 1000),
             max_wall_time=env.pos("wall"))
    if cfg["fn"] not in CRAB:
        o["min_grad"] = env.pos("ming")
    o["optim_method"] = cfg["meth"]
    give(o, lb, ub)
    want = dict(fid_err_targ=o["fid_err_targ"], max_iterations=o["max_iter"],
                max_wall_time=o["max_wall_time"], min_gradient_norm=o.get("min_grad", 0.0))
    opt_want = {}
    mp = cfg["mp"]
    if mp in ("op", "both"):
        o["optim_params"] = dict(an_attribute=env.real("oa"), other=env.real("oo"))
        opt_want.update(o["optim_params"])
    if mp in ("mp", "both"):
        o["method_params"] = dict(max_fid_func_calls=env.int("mpc", 5, 1000),
                                  an_option=env.real("mpo"))
        if mp == "both":
            opt_want["other"] = o["method_params"]["other"] = env.real("oo2")
        if cfg["meth"].upper() in ("LBFGSB", "FMIN_L_BFGS_B"):
            opt_want["max_metric_corr"] = o["method_params"]["max_metric_corr"] = \
                env.int("mpm", 1, 30)
        want["max_fid_func_calls"] = o["method_params"]["max_fid_func_calls"]
    if crab:
        o["alg_params"] = dict(num_coeffs=1, crab_pulse_params=dict(randomize_freqs=False))
    else:
        o["init_pulse_type"] = "ZERO"
    run = Run(env, cfg, s, o)
    for k, v in want.items():
        env.eq("termination condition " + k, getattr(run.tc, k) * 1, v * 1)
    for k, v in opt_want.items():
        env.eq("optimiser attribute " + k, getattr(run.opt, k) * 1, v * 1)
    meth = cfg["meth"].upper()
    front = {"DEF": "fmin" if crab else "fmin_l_bfgs_b", "FMIN": "fmin", "FMIN_BFGS": "fmin_bfgs",
             "LBFGSB": "fmin_l_bfgs_b", "FMIN_L_BFGS_B": "fmin_l_bfgs_b"}.get(meth, "minimize")
    env.ensure("minimiser", run.m.front == front)
    a = run.m.args
    if front == "minimize":
        env.ensure("method", a["method"] == cfg["meth"])
        env.ensure("gradients only for GRAPE", callable(a["jac"]) != crab)
        if mp in ("mp", "both"):
            env.eq("option of the method", a["options"]["an_option"],
                   o["method_params"]["an_option"])
        env.eq("maxiter", a["options"]["maxiter"] * 1, want["max_iterations"] * 1)
        if not crab:
            env.eq("gtol", a["options"]["gtol"] * 1, want["min_gradient_norm"] * 1)
    else:
        env.eq("maxiter", a["maxiter"] * 1, want["max_iterations"] * 1)
        if front == "fmin_bfgs":
            env.eq("gtol", a["gtol"], want["min_gradient_norm"])
        if front == "fmin_l_bfgs_b":
            env.eq("pgtol", a["pgtol"], want["min_gradient_norm"])
            if "max_metric_corr" in opt_want:
                env.eq("m", a["m"] * 1, opt_want["max_metric_corr"] * 1)
        if "max_fid_func_calls" in want and "maxfun" in a:
            env.eq("maxfun", a["maxfun"] * 1, want["max_fid_func_calls"] * 1)
    if front == "fmin_l_bfgs_b" or front == "minimize" and not crab:
        from . import c14
        c14.check_bounds(env, "problem", a["bounds"], lb, ub, s.nts, s.nc)
    env.ensure("number of variables",
               len(a["x0"]) == (2 * s.nc if crab else s.nts * s.nc))


# ---- initial pulses --------------------------------------------------------------
def t_pulses(env, cfg):
    s = system(env, cfg, idle=True)
    lb, ub = bounds(env, cfg)
    g = cfg["gen"]
    o = dict(init_pulse_type=g, pulse_scaling=env.real("psc"), pulse_offset=env.real("pof"))
    give(o, lb, ub)
    par = {}
    if cfg["par"] != "none" and g == "LIN":
        par.update(start_val=env.real("sv"), end_val=env.real("ev"))
    if cfg["par"] == "over":
        par.update(scaling=env.real("psc2"), offset=env.real("pof2"))
    if par:
        o["init_pulse_params"] = dict(par)
    run = Run(env, cfg, s, o)
    u = env.mat(run.r.initial_amps)
    for j in range(s.nc):
        l, h = per(lb, j), per(ub, j)
        if g == "RND":
            sc, of = par.get("scaling", o["pulse_scaling"]), par.get("offset", o["pulse_offset"])
            for k in range(s.nts):
                if l is not None:
                    env.ensure("slot %d control %d above its bound" % (k, j),
                               le(env, l, u[k, j]))
                if h is not None:
                    env.ensure("slot %d control %d below its bound" % (k, j),
                               le(env, u[k, j], h))
                if l is None and h is None:
                    env.ensure("slot %d control %d in the range" % (k, j),
                               le(env, (u[k, j] - of) * (u[k, j] - of), sc * sc))
            continue
        p = pulsegen.create_pulse_gen(g, dyn=run.d)
        p.scaling, p.offset = o["pulse_scaling"], o["pulse_offset"]
        p.lbound, p.ubound = l, h
        for k, v in par.items():
            setattr(p, k, v)
        env.eq("initial pulse of control %d" % j, u[:, j], p.gen_pulse())
    if g == "RND" and env.sym and cfg["bnd"] == "none":
        env.ensure("every control has its own random pulse", s.nc < 2 or not
                   ol.same_arr(u[:, 0], u[:, 1]))


def le(env, a, b):
    if env.sym:
        return a <= b
    return float(a) <= float(b) + 1e-6 * (1 + abs(float(b)))


def t_crab(env, cfg):
    s = system(env, cfg, idle=True)
    lb, ub = bounds(env, cfg)
    ap = dict(crab_pulse_params=dict(randomize_freqs=False))
    wrap = cfg["fn"] in CRAB
    o = {}
    nco, ics = cfg["ncoef"], env.pos("ics")
    if wrap and cfg["par"] != "over":
        o.update(num_coeffs=nco, init_coeff_scaling=ics)
    else:
        ap.update(num_coeffs=nco, init_coeff_scaling=ics)
        if wrap:
            o.update(num_coeffs=nco + 1, init_coeff_scaling=env.pos("ics2"))
    if cfg["par"] == "own":
        ap["fix_frequency"] = False
    o["alg_params"] = dict(ap)
    give(o, lb, ub)
    g = cfg["gen"]
    par, sc, of, act = {}, 1.0, 0.0, None
    if g:
        sc, of, act = env.real("gsc"), env.real("gof"), cfg["act"]
        if cfg["par"] != "none" and g == "LIN":
            par.update(start_val=env.real("sv"), end_val=env.real("ev"))
        if not wrap and cfg["par"] != "over":
            par.update(pulse_action=act)
            o.update(pulse_scaling=sc, pulse_offset=of)
        elif cfg["par"] == "over":
            par.update(scaling=sc, offset=of, pulse_action=act)
            if wrap:
                o.update(guess_pulse_scaling=env.real("gsc2"), guess_pulse_action="ADD",
                         guess_pulse_offset=env.real("gof2"))
            else:
                o.update(pulse_scaling=env.real("gsc2"), pulse_offset=env.real("gof2"))
        else:
            o.update(guess_pulse_scaling=sc, guess_pulse_offset=of, guess_pulse_action=act)
        if wrap:
            o["guess_pulse_type"] = g
            if par:
                o["guess_pulse_params"] = dict(par)
        else:
            o["init_pulse_type"] = g
            o["init_pulse_params"] = dict(par)
    if cfg["ramp"]:
        o["ramping_pulse_type"] = "LIN"
        ramp = dict(start_val=env.real("rs"), end_val=env.real("re"))
        o["ramping_pulse_params"] = dict(ramp)
    run = Run(env, cfg, s, o)
    u = env.mat(run.r.initial_amps)
    x0 = run.m.args["x0"]
    nb = 3 if cfg["par"] == "own" else 2
    env.ensure("number of variables", len(x0) == s.nc * nco * nb)
    for j in range(s.nc):
        p = pulsegen.PulseGenCrabFourier(dyn=run.d, num_coeffs=nco, fix_freqs=nb == 2)
        p.randomize_freqs = False
        p.scaling = ics
        p.lbound, p.ubound = per(lb, j), per(ub, j)
        if g:
            q = pulsegen.create_pulse_gen(g, dyn=run.d)
            q.scaling, q.offset = sc, of
            q.lbound, q.ubound = p.lbound, p.ubound
            for k, v in par.items():
                if k != "pulse_action":
                    setattr(q, k, v)
            p.guess_pulse = q.gen_pulse()
            p.guess_pulse_action = act
        if cfg["ramp"]:
            q = pulsegen.create_pulse_gen("LIN", dyn=run.d)
            q.start_val, q.end_val = ramp["start_val"], ramp["end_val"]
            p.ramping_pulse = q.gen_pulse()
        p.init_pulse()
        mine = x0[j * nco * nb:(j + 1) * nco * nb]
        p.set_optim_var_vals(mine.copy())
        env.eq("initial pulse of control %d" % j, u[:, j], p.gen_pulse())
        for k in range(nco):
            for i in range(2):
                env.ensure("coefficient %d %d of control %d in the range" % (k, i, j),
                           le(env, p.coeffs[k, i] * p.coeffs[k, i], ics * ics))


# ---- deprecated names -------------------------------------------------------------
def t_deprecated(env, cfg):
    s = system(env, cfg, idle=True)
    dep, both = cfg["dep"], cfg["both"]
    o = dict(init_pulse_type="ZERO", optim_method="LBFGSB")
    v = env.pos("dv")
    new = env.pos("nv")
    if dep == "optim_alg":
        o["optim_alg"] = "FMIN_BFGS"
        if both:
            o["optim_method"] = ["", "BFGS", "DEF"][both]
        run = Run(env, cfg, s, o)
        env.ensure("optim_alg selects the method", run.m.front == "fmin_bfgs")
        return
    if dep == "amp_update_mode":
        o["amp_update_mode"] = ["ALL", "all", "UPDATE_ALL"][both]
        run = Run(env, cfg, s, o)
        env.ensure("update mode", type(run.d.tslot_computer).__name__ == "TSlotCompUpdateAll")
        return
    dic, key = {"max_metric_corr": ("method_params", "max_metric_corr"),
                "accuracy_factor": ("method_params", "accuracy_factor"),
                "phase_option": ("fid_params", "phase_option"),
                "fid_err_scale_factor": ("fid_params", "scale_factor")}[dep]
    if dep == "max_metric_corr":
        v, new = env.int("di", 1, 30), env.int("ni", 1, 30)
    if dep == "phase_option":
        v, new = "SU", "PSU"
    o[dep] = v
    if both:
        o[dic] = {"another": env.real("an")}
    if both == 2:
        o[dic][key] = new
        v = new
    run = Run(env, cfg, s, o)
    if dic == "fid_params":
        got = getattr(run.d.fid_computer, key)
    else:
        got = run.m.args[{"max_metric_corr": "m", "accuracy_factor": "factr"}[key]]
    if isinstance(v, str):
        env.ensure(dep + " takes effect", got == v)
    else:
        env.eq(dep + " takes effect", got * 1, v * 1)
    if both and dic == "fid_params":
        env.eq("the other parameters take effect", run.d.fid_computer.another, o[dic]["another"])


# ---- parameters as attributes --------------------------------------------------------
def t_attrs(env, cfg):
    s = system(env, cfg)
    o = {}
    for k in ("dyn", "prop", "fid", "tslot", "optim"):
        o[k + "_params"] = {"an_attribute": env.real("a_" + k)}
    o["dyn_params"]["initial_ctrl_scaling"] = env.real("ics")
    o["dyn_params"]["oper_dtype"] = env.Qobj
    o["tslot_type"] = "UPDATE_ALL"
    if cfg["fn"] not in CRAB:
        o["init_pulse_type"] = "ZERO"
    else:
        o["num_coeffs"] = 1
    run = Run(env, cfg, s, o)
    d = run.d
    for k, x in (("dyn", d), ("prop", d.prop_computer), ("fid", d.fid_computer),
                 ("tslot", d.tslot_computer), ("optim", run.opt)):
        env.ensure(k + "_params reach the object", hasattr(x, "an_attribute"))
        env.eq(k + "_params", x.an_attribute, o[k + "_params"]["an_attribute"])
    env.eq("dyn_params", d.initial_ctrl_scaling, o["dyn_params"]["initial_ctrl_scaling"])
    env.ensure("operator type", d.oper_dtype is env.Qobj)
    env.ensure("optimiser and dynamics belong together", d.prop_computer.parent is d
               and d.fid_computer.parent is d and d.tslot_computer.parent is d)
    for x, y, n in zip((d.drift_dyn_gen, d.ctrl_dyn_gen[0], d.initial, d.target),
                       (run.given[0], run.given[1][0], run.given[2], run.given[3]),
                       ("drift", "control", "initial", "target")):
        env.eq(n, x.full(), y.full())


# ---- the caller's objects ---------------------------------------------------------------
def snap(v):
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snap(x) for x in v]
    return v


def unchanged(env, label, now, was):
    if isinstance(was, dict):
        env.ensure(label + ": keys", set(now) == set(was))
        for k in was:
            unchanged(env, label + "." + str(k), now[k], was[k])
    elif isinstance(was, list):
        env.ensure(label + ": length", len(now) == len(was))
        for k in range(len(was)):
            unchanged(env, "%s[%d]" % (label, k), now[k], was[k])
    else:
        env.ensure(label, now is was or bool(ol.same(now, was)))


def t_caller(env, cfg):
    crab = cfg["alg"].upper() == "CRAB"
    s = system(env, cfg, idle=True)
    o = dict(optim_params={"xtol": env.pos("xt")}, dyn_params={"d": env.real("d")},
             method_params={"ftol": env.pos("ft")}, prop_params={"p": env.real("p")},
             fid_params={"f": env.real("f")}, tslot_params={"t": env.real("t")})
    wrap = cfg["fn"] in CRAB
    if not crab:
        o.update(amp_lbound=[-1.0, -2.0], amp_ubound=[1.0, 3.0])
    if crab:
        o["alg_params"] = dict(crab_pulse_params=dict(randomize_freqs=False))
        if not wrap:
            o["alg_params"]["num_coeffs"] = 1
        o["guess_pulse_type" if wrap else "init_pulse_type"] = "LIN"
        o["guess_pulse_params" if wrap else "init_pulse_params"] = dict(start_val=env.real("sv"))
        o["ramping_pulse_type"] = "LIN"
        o["ramping_pulse_params"] = dict(end_val=env.real("re"))
    else:
        o["init_pulse_type"] = "ZERO"
        o["init_pulse_params"] = dict(another=env.real("sv"))
    first, second = {}, {}
    if wrap:
        for k, sec in ((first, "1"), (second, "2")):
            k.update(init_coeff_scaling=env.pos("ics" + sec), num_coeffs=1 + (sec == "2"),
                     guess_pulse_scaling=env.real("gs" + sec),
                     guess_pulse_offset=env.real("go" + sec),
                     guess_pulse_action=["MODULATE", "ADD"][sec == "2"])
    else:
        for k, sec in ((first, "1"), (second, "2")):
            k.update(max_metric_corr=env.int("mm" + sec, 1, 30), accuracy_factor=env.pos("af" + sec))
    if cfg["dyn"] == "UNIT":
        first["phase_option"], second["phase_option"] = "SU", "PSU"
    elif not wrap:
        first["fid_err_scale_factor"] = env.pos("sf1")
        second["fid_err_scale_factor"] = env.pos("sf2")
    was = snap(o)
    run1 = Run(env, cfg, s, dict(o, **first))
    unchanged(env, "options", o, was)
    run2 = Run(env, cfg, s, dict(o, **second))
    unchanged(env, "options", o, was)
    for label, run, f in (("first", run1, first), ("second", run2, second)):
        fc = run.d.fid_computer
        if "phase_option" in f:
            env.ensure(label + " call: phase option", fc.phase_option == f["phase_option"])
        if "fid_err_scale_factor" in f:
            env.eq(label + " call: scale factor", fc.scale_factor, f["fid_err_scale_factor"])
        if wrap:
            p = run.opt.pulse_generator[0]
            env.ensure(label + " call: coefficients", p.num_coeffs == f["num_coeffs"])
            env.eq(label + " call: coefficient scaling", p.scaling, f["init_coeff_scaling"])
            env.ensure(label + " call: guess action",
                       p.guess_pulse_action == f["guess_pulse_action"])
            q = pulsegen.create_pulse_gen("LIN", dyn=run.d)
            q.scaling, q.offset = f["guess_pulse_scaling"], f["guess_pulse_offset"]
            q.start_val = o["guess_pulse_params"]["start_val"]
            env.eq(label + " call: guess pulse", p.guess_pulse, q.gen_pulse())
        elif not crab:
            env.eq(label + " call: max_metric_corr", run.m.args["m"] * 1,
                   f["max_metric_corr"] * 1)
            env.eq(label + " call: accuracy_factor", run.m.args["factr"],
                   f["accuracy_factor"])
    env.ensure("the calls share no objects", run1.d is not run2.d and run1.opt is not run2.opt
               and run1.d.fid_computer is not run2.d.fid_computer and run1.tc is not run2.tc)


# ---- files ---------------------------------------------------------------------------------
def t_files(env, cfg):
    crab = cfg["fn"] in CRAB
    for tau in (0, 1):
        c = dict(cfg, tau=tau, nts=1 if crab or cfg["dyn"] == "UNIT" else 2,
                 nc=1 if crab else 2)
        s = system(env, c, idle=True)
        o = dict(out_file_ext="xyz.txt")
        if not crab:
            o.update(init_pulse_type="ZERO", pulse_offset=env.real("of%d" % tau))
        else:
            o["num_coeffs"] = 1
        saved = []
        real = np.savetxt
        np.savetxt = lambda fname, X, *a, **k: saved.append((fname, X.copy()))
        try:
            run = Run(env, c, s, o, "n" if not crab else "")
        finally:
            np.savetxt = real
        env.ensure("two files", [f for f, x in saved] ==
                   ["ctrl_amps_initial_xyz.txt", "ctrl_amps_final_xyz.txt"])
        for (f, x), u in zip(saved, (run.r.initial_amps, run.r.final_amps)):
            env.ensure(f + ": one row per slot", np.shape(x) == (s.nts, s.nc + 1))
            t = 0
            for k in range(s.nts):
                env.eq("%s: time %d" % (f, k), x[k, 0], t)
                t = t + s.taus[k]
            env.eq(f + ": amplitudes", x[:, 1:], u)


# ---- statistics ------------------------------------------------------------------------------
def t_stats(env, cfg):
    s = system(env, cfg)
    o = {"num_coeffs": 1} if cfg["fn"] in CRAB else {"init_pulse_type": "ZERO"}
    r = Run(env, cfg, s, dict(o, gen_stats=True), "f").r
    env.ensure("statistics when asked for", r.stats is not None
               and r.stats.num_fidelity_func_calls == 1)
    r = Run(env, cfg, s, dict(o, gen_stats=False), "f").r
    env.ensure("no statistics when not asked for", r.stats is None)
    lev = po.logger.level
    r = Run(env, cfg, s, dict(o, log_level=logging.ERROR), "f").r
    env.ensure("log level", po.logger.getEffectiveLevel() == logging.ERROR)
    po.logger.setLevel(lev)


# ---- unusable options ------------------------------------------------------------------------
def t_errors(env, cfg):
    crab = cfg["fn"] in CRAB
    s = system(env, cfg)
    base = {"num_coeffs": 1} if crab else {"init_pulse_type": "ZERO"}
    unit = cfg["fn"] in ("unitary", "crabu")
    names = ("H_d", "H_c", "U_0", "U_targ") if unit else ("drift", "ctrls", "initial", "target")
    q = env.qobj
    sysd = dict(zip(names, (q(s.drift[0]), [q(a) for a in s.ctrl[0]], q(s.initial),
                            q(s.target))))
    f = getattr(po, FN[cfg["fn"]])

    def attempt(exc, label, drop=(), **k):
        a = dict(sysd, num_tslots=s.nts, evo_time=s.T, **base)
        if not unit:
            a["dyn_type"] = "GEN_MAT"
        a.update(k)
        for d in drop:
            a.pop(d)
        env.raises(label, exc, lambda: f(**a))
    m = ol.Mini(env, cfg, None, "")
    with warnings.catch_warnings(), m.patched():
        warnings.simplefilter("ignore")
        attempt(TypeError, "initial must be a quantum object", **{names[2]: 3})
        attempt(TypeError, "target must be a quantum object", **{names[3]: 3})
        attempt(errors.UsageError, "the times must be given", ("num_tslots",))
        attempt(errors.UsageError, "the times must be given", ("evo_time",))
        attempt(errors.UsageError, "the times must be given", ("num_tslots", "evo_time"))
        if not crab:
            attempt(errors.UsageError, "unknown algorithm", alg="GRASP")
            attempt(errors.UsageError, "no algorithm", alg=None)
            attempt(errors.UsageError, "method without gradient", optim_method="FMIN")
            attempt(errors.UsageError, "no method", optim_method="")
            attempt(ValueError, "unknown pulse type", init_pulse_type="SINUS")
        else:
            attempt(ValueError, "unknown guess pulse type", guess_pulse_type="SINUS")
        if not unit:
            attempt(errors.UsageError, "unknown dynamics type", dyn_type="GEN")
            attempt(errors.UsageError, "unknown propagator type", prop_type="EXP")
            attempt(errors.UsageError, "unknown fidelity type", fid_type="FID")
        env.ensure("nothing is minimised", m.runs == 0)
