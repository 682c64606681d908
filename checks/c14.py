"""C14 the minimiser is given the right problem: start, bounds, gradient and options"""
import numpy as np
import qutip_qtrl.optimconfig as oc
from . import optlib as ol
from . import dynlib as dl

BOUNDS = ("1-3 slots, 1-2 controls; start amplitudes, bounds, limits and tolerances symbolic; "
          "bounds absent, scalar, per control, one- or two-sided, infinite or set by the user; "
          "all five optimisers; up to 3 runs with changed bounds, limits, amplitudes or slots")
OUTSIDE = ("which options a given scipy method understands")
OPTS = ["Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrab", "OptimizerCrabFmin"]
BND = ["none", "lb", "ub", "both", "list", "inf", "listinf", "neginf", "mixed", "zero"]


def configs(tier):
    out = []
    for o in OPTS:
        for i, b in enumerate(BND):
            if o in ("OptimizerBFGS", "OptimizerCrabFmin") and b not in ("none", "both"):
                continue
            for nts, nc in ((2, 2), (3, 1)) if tier == "quick" else ((2, 2), (3, 1), (1, 2),
                                                                      (3, 2), (1, 1), (4, 2)):
                for src in ("attr", "config", "params"):
                    if src == "config" and b.startswith("list"):
                        pass
                    if tier == "quick" and src != "attr" and nts == 3:
                        continue
                    out.append(dict(opt=o, bnd=b, nts=nts, nc=nc, src=src, ag=0, opts="tc"))
        for op in ("def", "mp", "mpattr", "zero", "user"):
            out.append(dict(opt=o, bnd="both", nts=2, nc=1, src="attr", ag=0, opts=op))
        if "Crab" not in o:
            out.append(dict(opt=o, bnd="both", nts=2, nc=1, src="attr", ag=1, opts="tc"))
        for h in ("bounds", "slots", "tc", "user", "newtc", "list"):
            out.append(dict(opt=o, bnd="both", nts=2, nc=1, src="attr", ag=0, opts="tc",
                            again=h))
    return out


def bounds(env, cfg, tag=""):
    """(value of the lower, of the upper attribute, per control)"""
    nc, b = cfg["nc"], cfg["bnd"]
    lo = [env.real("lb%s%d" % (tag, j)) for j in range(nc)]
    hi = [env.real("ub%s%d" % (tag, j)) for j in range(nc)]
    inf = float("inf")
    if b == "none":
        return None, None
    if b == "lb":
        return lo[0], None
    if b == "ub":
        return None, hi[0]
    if b == "both":
        return lo[0], hi[0]
    if b == "list":
        return list(lo), list(hi)
    if b == "inf":
        return -inf, hi[0]
    if b == "neginf":
        return -inf, inf
    if b == "listinf":
        return [-inf] + lo[1:], hi[:1] + [inf] * (nc - 1)
    if b == "zero":
        return 0.0, hi[0]
    return list(lo), hi[0]


def per(b, j):
    v = b[j] if isinstance(b, list) else b
    return None if isinstance(v, float) and np.isinf(v) else v


def check_bounds(env, label, got, lb, ub, nts, nc):
    if hasattr(got, "lb") and hasattr(got, "ub"):
        got = list(zip(got.lb, got.ub))
    if got is None:
        env.ensure(label + ": bounds are passed",
                   all(per(b, j) is None for b in (lb, ub) for j in range(nc)))
        return
    env.ensure(label + ": one pair per variable", len(got) == nts * nc)
    for t in range(nts):
        for j in range(nc):
            for w, b, nm in ((got[t * nc + j][0], lb, "lower"), (got[t * nc + j][1], ub, "upper")):
                e = per(b, j)
                if isinstance(w, float) and np.isinf(w):
                    w = None
                lab = "%s: %s bound of slot %d control %d" % (label, nm, t, j)
                env.ensure(lab + " present", (w is None) == (e is None))
                if e is not None:
                    env.eq(lab, w, e)


def expect_options(env, cfg, m, opt, tc, user, label):
    a = m.args
    f = m.front
    if f == "minimize":
        o = a["options"] or {}
        want = dict(disp=opt.disp_conv_msg)
        if "maxiter" not in user and not none_or_zero(tc.max_iterations):
            want["maxiter"] = tc.max_iterations
        if "gtol" not in user and not none_or_zero(tc.min_gradient_norm):
            want["gtol"] = tc.min_gradient_norm
        if "maxfev" not in user and not none_or_zero(tc.max_fid_func_calls):
            want["maxfev"] = tc.max_fid_func_calls
        if hasattr(tc, "accuracy_factor"):
            want["ftol"] = tc.accuracy_factor
        want.update(user)
        for k, v in want.items():
            env.ensure("%s: option %s passed" % (label, k), k in o)
            env.eq("%s: option %s" % (label, k), o[k] * 1, v * 1)
        for k in ("maxiter", "gtol", "maxfev", "ftol"):
            if k not in want:
                env.ensure("%s: option %s not invented" % (label, k), k not in o)
        env.ensure(label + ": method", a["method"] == opt.method)
        return
    want = {}
    if f == "fmin_bfgs":
        want = dict(gtol=tc.min_gradient_norm, maxiter=tc.max_iterations)
    elif f == "fmin_l_bfgs_b":
        want = dict(pgtol=tc.min_gradient_norm, maxiter=tc.max_iterations,
                    maxfun=tc.max_fid_func_calls,
                    factr=getattr(tc, "accuracy_factor", 1e7), m=opt.max_metric_corr)
    elif f == "fmin":
        want = dict(xtol=opt.xtol, ftol=opt.ftol, maxiter=tc.max_iterations,
                    maxfun=tc.max_fid_func_calls)
    for k, v in want.items():
        env.eq("%s: argument %s" % (label, k), a[k], v)


def none_or_zero(x):
    return isinstance(x, (int, float)) and x == 0


def setbounds(opt, lb, ub):
    opt.amp_lbound, opt.amp_ubound = lb, ub


def harness(env, cfg):
    crab = "Crab" in cfg["opt"]
    lb, ub = bounds(env, cfg)
    params = None
    conf = oc.OptimConfig()
    if cfg["src"] == "config":
        conf.amp_lbound, conf.amp_ubound = lb, ub
    elif cfg["src"] == "params":
        params = dict(amp_lbound=lb, amp_ubound=ub)
    s, c, d, opt, tc = ol.setup(env, cfg, config=conf, params=params)
    if cfg["src"] == "attr":
        setbounds(opt, lb, ub)
    tc.fid_err_targ = -np.inf
    tc.max_iterations = env.int("maxit", 1, 1000)
    tc.max_fid_func_calls = env.int("maxfev", 2, 1000)
    tc.min_gradient_norm = env.pos("gtol")
    user = {}
    if cfg["opts"] == "mp":
        user = dict(eps=env.pos("eps"))
        if cfg["opt"] == "Optimizer":
            user["maxiter"] = env.int("umaxit", 1, 1000)
        opt.method_params = dict(user)
    elif cfg["opts"] == "mpattr":
        mp = dict(max_iterations=env.int("mpit", 1, 1000), disp_conv_msg=True,
                  min_gradient_norm=env.pos("mpg"), fid_err_targ=-np.inf)
        if cfg["opt"] == "OptimizerLBFGSB":
            mp["max_metric_corr"] = env.int("mpm", 1, 30)
        if cfg["opt"] == "OptimizerCrabFmin":
            mp["xtol"] = env.pos("xt")
            mp["ftol"] = env.pos("ft")
        opt.method_params = dict(mp)
    elif cfg["opts"] == "zero":
        if cfg["opt"] in ("Optimizer", "OptimizerCrab"):
            tc.max_iterations = 0
            tc.min_gradient_norm = 0
    elif cfg["opts"] == "user":
        tc.accuracy_factor = env.pos("acc")
        if cfg["opt"] == "OptimizerLBFGSB":
            opt.max_metric_corr = env.int("mmc", 1, 30)
    elif cfg["opts"] == "def":
        tc.max_iterations, tc.max_fid_func_calls, tc.min_gradient_norm = 1e10, 1e10, 1e-5
    if cfg["ag"]:
        opt.approx_grad = True
    m = one(env, cfg, s, d, opt, tc, lb, ub, user, s.u, "run")
    if cfg["opts"] == "mpattr":
        for k, v in mp.items():
            o = opt if hasattr(opt, k) else tc
            env.eq("method parameter %s takes effect" % k, getattr(o, k) * 1, v * 1)
    h = cfg.get("again")
    if h is None:
        return
    u = ol.amps_of(cfg, s, m.ret)
    if h == "bounds":
        lb, ub = bounds(env, cfg, "2")
        setbounds(opt, lb, ub)
    elif h == "list":
        lb, ub = [env.real("lb3")], None
        setbounds(opt, lb, ub)
    elif h == "slots":
        s.nts = 3
        d.num_tslots = 3
        u = s.u = env.rarr("w", (3, s.nc))
        d.initialize_controls(u.copy())
        if crab:
            for j, g in enumerate(opt.pulse_generator):
                g.num_tslots = 3
                g.vals = u[:, j].copy()
                g.init_pulse()
    elif h == "tc":
        tc.max_iterations = env.int("maxit2", 1, 1000)
        tc.max_fid_func_calls = env.int("maxfev2", 2, 1000)
        tc.min_gradient_norm = env.pos("gtol2")
    elif h == "newtc":
        import qutip_qtrl.termcond as termcond
        tc = termcond.TerminationConditions()
        tc.fid_err_targ = -np.inf
        tc.max_iterations = env.int("maxit3", 1, 1000)
    mine = None
    if h == "user":
        mine = [(env.real("bl%d" % k), env.real("bh%d" % k)) for k in range(s.nts * s.nc)]
        opt.bounds = list(mine)
    one(env, cfg, s, d, opt, tc, lb, ub, user, u, "next run", mine, pass_tc=h == "newtc")
    if mine is not None:
        one(env, cfg, s, d, opt, tc, lb, ub, user, None, "third run", mine)


def one(env, cfg, s, d, opt, tc, lb, ub, user, u, label, mine=None, pass_tc=False):
    crab = "Crab" in cfg["opt"]
    m = ol.Mini(env, cfg, opt, "f")
    m.nx = {"run": 0, "next run": 30, "third run": 60}[label]
    with m.patched():
        opt.run_optimization(tc) if pass_tc else opt.run_optimization()
    env.ensure(label + ": minimiser", m.runs == 1)
    if u is not None:
        x0 = u.T.reshape(-1) if crab else u.reshape(-1)
        env.eq(label + ": start", m.x0, x0)
    if "bounds" in m.args:
        b = m.args["bounds"]
        if crab:
            env.ensure(label + ": no bounds on coefficients", mine is not None or b is None)
        elif mine is not None:
            env.ensure(label + ": bounds of the user", b is not None and len(b) == len(mine))
            for k in range(len(mine)):
                env.eq(label + ": user's lower bound", b[k][0], mine[k][0])
                env.eq(label + ": user's upper bound", b[k][1], mine[k][1])
        else:
            check_bounds(env, label, b, lb, ub, s.nts, s.nc)
    g = m.args["jac"] if m.front == "minimize" else m.args.get("fprime")
    if m.front != "fmin":
        env.ensure(label + ": gradient function unless approximated",
                   (g is None) == bool(crab or cfg["ag"]))
    if m.front == "fmin_l_bfgs_b":
        env.ensure(label + ": approx_grad flag", bool(m.args["approx_grad"]) == bool(cfg["ag"]))
    expect_options(env, cfg, m, opt, tc, user, label)
    return m
