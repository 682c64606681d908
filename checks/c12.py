"""C12 termination conditions end the optimisation, and the result says which"""
import numpy as np
import qutip_qtrl.errors as errors
from . import optlib as ol

BOUNDS = ("scripts of up to 6 (quick) / 9 (thorough) objective, gradient and iteration calls "
          "(new, repeated and in-place changed points); error, gradient norm, clock, targets "
          "and limits are arbitrary symbolic values; all five optimisers; every warning flag")
OUTSIDE = ("scipy's minimisers themselves (replaced by an arbitrary script of calls); which "
           "point a minimiser visits next")
ASSUMPTIONS = ["a minimiser calls the objective, gradient and callback it was given and "
               "returns what its scipy documentation says"]

OPTS = ["Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrab", "OptimizerCrabFmin"]
FLAGS = ["goal_achieved", "max_fid_func_exceeded", "grad_norm_min_reached",
         "wall_time_limit_exceeded", "max_iter_exceeded"]
# outcome of a normal return: flags set for each warning flag
RET = {"minimize": {0: [], 1: [], 2: []},
       "fmin_bfgs": {0: ["grad_norm_min_reached"], 1: ["max_iter_exceeded"], 2: [],
                     3: []},
       "fmin_l_bfgs_b": {0: ["grad_norm_min_reached"], 1: ["max_iter_exceeded"], 2: []},
       "fmin": {0: [], 1: ["max_fid_func_exceeded"], 2: ["max_iter_exceeded"]}}


def configs(tier):
    out = []
    scr = ["fgc", "fsgfg", "fcfc", "ffc1", "fmgc", "fn", "fpgs", "ccf", "fgmgmg", "fgfg1",
           "gffgfc", "mmg"]
    if tier == "thorough":
        scr += ["fgcfgcfgc", "ffffffg", "fgmgmgcfg", "fccccfcgc", "fgfgfg1", "fsssc",
                "gfgfgcfgc", "fpspspsp", "mmmgmgc", "cgfcgfcgf", "ffgfcn", "fgsgfgsgc",
                "fffffffff", "fcfcfcfcc"]
    for o in OPTS:
        crab = "Crab" in o
        for i, sc in enumerate(scr):
            if crab and "g" in sc:
                sc = sc.replace("g", "f")
            warns = sorted(RET[ol.FRONT_OF[o]])
            for w in ([warns[i % len(warns)]] if tier == "quick" and i > 2 else warns):
                for lim in (["err", "all"] if i < 2 else ["all"]):
                    out.append(dict(opt=o, script=sc, warn=w, lim=lim, nts=2 if i % 2 else 1,
                                    nc=1 + (i % 3 == 1), goal=i % 3, dump=(i % 4 == 2),
                                    stats=i % 2, log=(i % 5 == 3)))
    return out


def harness(env, cfg):
    s, c, d, opt, tc = ol.setup(env, cfg)
    if cfg["goal"] == 0:
        targ = tc.fid_err_targ = env.real("targ", 0)
    elif cfg["goal"] == 1:
        tc.fid_err_targ = None
        tc.fid_goal = env.real("goal")
        targ = env.abs(1 - tc.fid_goal)
    else:
        targ = tc.fid_err_targ = env.real("targ", 0)
        tc.fid_goal = env.real("goal")          # the target error has precedence
    maxf = maxt = ming = None
    if cfg["lim"] == "all":
        maxf = tc.max_fid_func_calls = env.int("maxf", 1, 5)
        maxt = tc.max_wall_time = env.real("maxt", 0)
        ming = tc.min_gradient_norm = env.real("ming", 0)
    else:
        ming = tc.min_gradient_norm
        maxt = tc.max_wall_time
    if cfg["dump"]:
        opt.dumping = "FULL"
    if cfg["stats"]:
        import qutip_qtrl.stats as st
        opt.stats = d.stats = st.Stats()
    if cfg["log"]:
        import qutip_qtrl.logging_utils as lu
        lvl = opt.log_level
        try:
            opt.log_level = d.log_level = lu.DEBUG_VERBOSE
            run(env, cfg, s, c, d, opt, tc, targ, maxf, maxt, ming)
        finally:
            opt.log_level = d.log_level = lvl
    else:
        run(env, cfg, s, c, d, opt, tc, targ, maxf, maxt, ming)


def run(env, cfg, s, c, d, opt, tc, targ, maxf, maxt, ming):
    fc = d.fid_computer
    clock = ol.Clock(env)
    m = ol.Mini(env, cfg, opt, cfg["script"])
    want = []
    mark = {}
    script0 = {}

    def hook(when, op, x, v, exc):
        if when == "before":
            if "start" not in script0:
                script0["start"] = len(clock.reads)
            mark["reads"] = len(clock.reads)
            mark["end"] = len(clock.reads)
            return
        mark["end"] = len(clock.reads)
        amps = ol.amps_of(cfg, s, x)
        if op in "fg":
            env.eq("amplitudes set to the minimiser's variables", d.ctrl_amps, amps)
        if op == "f":
            e = fc.err_of(amps)
            if bool(e <= targ):
                w = ("goal_achieved", errors.GoalAchievedTerminate)
            elif maxf is not None and bool(maxf < m.nf):
                w = ("max_fid_func_exceeded", errors.MaxFidFuncCallTerminate)
            else:
                w = None
        elif op == "g":
            g, gn = fc.grad_of(amps)
            w = ("grad_norm_min_reached", errors.GradMinReachedTerminate) \
                if bool(gn < ming) else None
        else:
            st = clock.reads[:script0["start"]]
            now = clock.reads[mark["reads"]:]
            env.ensure("wall time read at the start and at each iteration",
                       bool(st) and bool(now))
            w = ("wall_time_limit_exceeded", errors.MaxWallTimeTerminate)
            if exc is not None:
                env.ensure("terminated only when the wall time is exceeded",
                           now[-1] - st[0] > maxt)
            else:
                env.ensure("terminated once the wall time is exceeded",
                           now[0] - st[-1] <= maxt)
                w = None
        if w is None:
            env.ensure("no termination condition is met by '%s'" % op, exc is None, repr(exc))
            if op == "f":
                env.eq("error handed to the minimiser", v, e)
            elif op == "g":
                env.ensure("gradient is one vector", np.shape(v) == np.shape(x))
                env.eq("gradient handed to the minimiser", v, _flat(cfg, g))
        else:
            env.ensure("terminates: %s" % w[0], isinstance(exc, w[1]), repr(exc))
            want.append(w[0])

    m.hook = hook
    with m.patched(clock):
        r = opt.run_optimization()
    early = bool(want)
    flags = want if early else RET[m.front][cfg["warn"]]
    for f in FLAGS:
        env.ensure("result.%s is %s" % (f, f in flags), bool(getattr(r, f)) == (f in flags))
    env.ensure("termination reason given", isinstance(r.termination_reason, str) and
               r.termination_reason not in ("", "not started yet"))
    if not early and m.front == "minimize":
        env.ensure("minimiser's message kept", r.termination_reason == "scripted message")
    if not early and m.front == "fmin_l_bfgs_b" and cfg["warn"] == 2:
        env.ensure("minimiser's message kept", r.termination_reason == "scripted task")
    if early:
        kw = {"goal_achieved": "goal", "max_fid_func_exceeded": "calls",
              "grad_norm_min_reached": "gradient", "wall_time_limit_exceeded": "time"}
        env.ensure("reason names the condition",
                   kw[want[0]] in r.termination_reason.lower(), r.termination_reason)
    env.ensure("counts objective calls", r.num_fid_func_calls == m.nf)
    env.ensure("counts iterations", r.num_iter == m.ncb)
    fin = m.log[-1][1] if early else m.ret
    if early and m.log[-1][0] == "c":
        fin = [x for o, x, v in m.log if o != "c"]
        fin = fin[-1] if fin else m.x0
    amps = ol.amps_of(cfg, s, fin)
    env.eq("final amplitudes", r.final_amps, amps)
    env.eq("final error", r.fid_err, fc.err_of(amps))
    env.eq("final fidelity", r.fidelity, fc.fid_of(amps))
    if cfg["lim"] == "all":
        env.ensure("wall time of the run", r.wall_time >= clock.reads[mark["end"] - 1]
                   - clock.reads[script0["start"] - 1])
        env.ensure("wall time of the run", r.wall_time <= clock.reads[-1] - clock.reads[0])
    if cfg["lim"] == "err" and cfg["warn"] == 0:
        # neither target given
        tc.fid_err_targ = tc.fid_goal = None
        env.raises("no goal and no target error", errors.UsageError,
                   lambda: opt.run_optimization())
        opt.termination_conditions = None
        env.raises("no termination conditions", errors.UsageError,
                   lambda: opt.run_optimization())


def _flat(cfg, g):
    return g.reshape(-1)
