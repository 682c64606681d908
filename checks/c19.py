"""C19 the statistics of a run count exactly what happened in it"""
import numpy as np
import qutip_qtrl.stats as st
from . import optlib as ol

BOUNDS = ("2x2 systems, 1-2 slots, 1-2 controls, scripts of up to 5 (quick) / 8 (thorough) "
          "minimiser calls, one or two runs; generators, targets, amplitudes, durations, clock "
          "readings and all parameter values the minimiser tries symbolic; all five optimisers")
OUTSIDE = ("scipy's minimisers (an arbitrary script of calls); the printed report; the counters "
           "of the incremental time-slot computer, which the documentation declares unusable")
OPTS = ["Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrab", "OptimizerCrabFmin"]
WITNESSES = 3


def configs(tier):
    out = []
    scr = ["", "f", "fsc", "fgf", "fmcfg", "gfc", "ffcf1", "fn"]
    if tier == "thorough":
        scr += ["fgcmgcfs", "ggsgfc", "pfpgcn", "fcfcfcf1"]
    base = [("GEN_MAT", "FRECHET", "TRACEDIFF", 2, 2), ("UNIT", "FRECHET", "UNIT", 2, 1),
            ("GEN_MAT", "APPROX", "TDAPPROX", 1, 2), ("GEN_MAT", "AUG_MAT", "TRACEDIFF", 1, 1)]
    for b, (dyn, prop, fid, nts, nc) in enumerate(base):
        for i, o in enumerate(OPTS):
            for j, sc in enumerate(scr):
                if "g" in sc and "Crab" in o:
                    continue
                if tier == "quick" and b > 1 and (i + j) % 2:
                    continue
                if fid == "TDAPPROX" and "g" in sc and tier == "quick":
                    continue
                out.append(dict(opt=o, dyn=dyn, prop=prop, fid=fid, nts=nts, nc=nc, script=sc,
                                pre=(i + j) % 2, cls=["Stats", "StatsDynTsUpdate"][(j // 2) % 2],
                                end=["", "goal", "wall"][(i + j) % 3 if sc else 0],
                                again=int(j in (1, 4)), tau=b % 2))
    for cls in ("Stats", "StatsDynTsUpdate"):
        out.append(dict(kind="calc", cls=cls))
    return out


class Count:
    """what should have been counted"""

    def __init__(self, cfg, d):
        self.cfg, self.unit = cfg, cfg["fid"] == "UNIT"
        self.amps = d.ctrl_amps.copy()
        self.updates = self.changes = self.slots = 0
        self.recomp = self.fids = self.grads = 0
        self.err = self.grad = False        # computed for the current amplitudes
        self.evo = False

    def need_err(self):
        self.need_evo()
        if not self.err:
            self.fids += 1
            self.err = True

    def need_evo(self):
        if not self.evo:
            self.recomp += 1
            self.evo = True

    def update(self, amps):
        ch = np.array([[not ol.same(amps[k, j], self.amps[k, j])
                        for j in range(amps.shape[1])] for k in range(amps.shape[0])])
        self.amps = amps.copy()
        if ch.any():
            self.updates += 1
            self.changes += int(ch.sum())
            self.slots += int(ch.any(axis=1).sum())
            self.err = self.grad = self.evo = False

    def call(self, op):
        if op == "f":
            self.need_err()
        elif not self.grad:
            self.need_evo()
            if self.unit:                   # the gradient of the error needs the fidelity
                self.need_err()
            elif self.cfg["fid"] == "TDAPPROX":
                self.need_err()
            self.grads += 1
            self.grad = True


def calc(env, cfg):
    """the derived figures are those of the counters, whenever they are asked for"""
    q = getattr(st, cfg["cls"])()
    dyn = cfg["cls"] == "StatsDynTsUpdate"
    for i in range(3):
        n, u, a, t = [env.pos("%s%d" % (k, i)) for k in "nuat"]
        q.num_iter, q.num_ctrl_amp_updates, q.num_ctrl_amp_changes = n, u, a
        q.num_timeslot_changes = t
        q.wall_time_optim_start = env.pos("start%d" % i)
        q.wall_time_optim_end = q.wall_time_optim_start + env.pos("dur%d" % i)
        if dyn:
            d, p, c = [env.pos("%s%d" % (k, i)) for k in "dpc"]
            q.num_dyn_gen_computes, q.num_prop_computes, q.num_fwd_prop_step_computes = d, p, c
            e = env.pos("e%d" % i)
            q.num_onwd_prop_step_computes = e
        q.calculate()
        env.eq("time of the run", q.wall_time_optim,
               q.wall_time_optim_end - q.wall_time_optim_start)
        env.eq("updates per iteration", q.mean_num_ctrl_amp_updates_per_iter, u / n)
        env.eq("slots per update", q.mean_num_timeslot_changes_per_update, t / u)
        env.eq("amplitudes per update", q.mean_num_ctrl_amp_changes_per_update, a / u)
        if dyn:
            env.eq("generators per update", q.mean_num_dyn_gen_computes_per_update, d / u)
            env.eq("propagators per update", q.mean_num_prop_computes_per_update, p / u)
            env.eq("forward steps per update", q.mean_num_fwd_prop_step_computes_per_update,
                   c / u)
            env.eq("onward steps per update", q.mean_num_onwd_prop_step_computes_per_update,
                   e / u)
    q.clear()
    for k in ("num_iter", "num_ctrl_amp_updates", "num_ctrl_amp_changes",
              "num_timeslot_changes", "wall_time_optim", "wall_time_optim_start"):
        env.ensure("cleared " + k, getattr(q, k) == 0)


def harness(env, cfg):
    if cfg.get("kind") == "calc":
        return calc(env, cfg)
    s, c, d, opt, tc = ol.setup(env, cfg, fake=False)
    stats = getattr(st, cfg["cls"])()
    tc.fid_err_targ = -np.inf
    tc.min_gradient_norm = -np.inf
    tc.max_wall_time = np.inf
    if cfg["end"] == "goal":
        tc.fid_err_targ = np.inf
    elif cfg["end"] == "wall":
        tc.max_wall_time = -1.0
    cnt = Count(cfg, d)
    if cfg["pre"]:
        d.fid_computer.get_fid_err()        # the initial amplitudes are evaluated already
        cnt.need_err()
        cnt.recomp = cnt.fids = 0
    opt.stats = d.stats = stats
    go(env, cfg, s, d, opt, stats, cnt, cfg["script"], "")
    if cfg["again"]:
        tc.fid_err_targ = -np.inf
        tc.max_wall_time = np.inf
        first = {k: v for k, v in vars(opt_result(opt)).items()}
        cnt2 = Count(cfg, d)
        cnt2.err, cnt2.grad, cnt2.evo = cnt.err, cnt.grad, cnt.evo
        go(env, cfg, s, d, opt, stats, cnt2, "fsc", "second run: ", nx=40)
        for k, v in first.items():
            now = getattr(opt_result(opt, 0), k)
            env.ensure("first result's statistics keep " + k,
                       now is v or ol.same(now, v) or now != now and v != v)


def opt_result(opt, k=-1):
    return opt.kept[k].stats


def go(env, cfg, s, d, opt, stats, cnt, script, label, nx=0):
    m = ol.Mini(env, cfg, opt, script)
    m.nx = nx
    clock = ol.Clock(env)

    def hook(when, op, x, v, exc):
        if when == "before" and op in "fg":
            cnt.update(ol.amps_of(cfg, s, x))
            cnt.call(op)
    m.hook = hook
    cnt.need_err()                          # the initial error
    with m.patched(clock):
        r = opt.run_optimization()
    ended = m.log and isinstance(m.log[-1][2], Exception)
    if not ended:
        cnt.update(ol.amps_of(cfg, s, m.ret))
    cnt.need_err()
    opt.kept = getattr(opt, "kept", []) + [r]
    q = r.stats
    env.ensure(label + "statistics in the result", q is not None)
    for k, v in dict(num_fidelity_func_calls=m.nf, num_grad_func_calls=m.ng, num_iter=m.ncb,
                     num_ctrl_amp_updates=cnt.updates, num_ctrl_amp_changes=cnt.changes,
                     num_timeslot_changes=cnt.slots, num_tslot_recompute=cnt.recomp,
                     num_fidelity_computes=cnt.fids, num_grad_computes=cnt.grads).items():
        env.ensure("%s%s = %d" % (label, k, v), int(getattr(q, k)) == v)
    env.ensure(label + "as many iterations as in the result", r.num_iter == q.num_iter)
    env.ensure(label + "as many calls as in the result",
               r.num_fid_func_calls == q.num_fidelity_func_calls)
    for k, a, b in (("mean_num_ctrl_amp_updates_per_iter", cnt.updates, m.ncb),
                    ("mean_num_timeslot_changes_per_update", cnt.slots, cnt.updates),
                    ("mean_num_ctrl_amp_changes_per_update", cnt.changes, cnt.updates)):
        v = getattr(q, k)
        if b:
            env.eq(label + k, v, a / float(b))
        else:
            env.ensure(label + k + " is undefined", v != v)
    env.eq(label + "time of the run", q.wall_time_optim, r.wall_time)
    env.eq(label + "end of the run", q.wall_time_optim_end - q.wall_time_optim_start, r.wall_time)
    total = clock.reads[-1] - clock.reads[0]
    parts = [getattr(q, "wall_time_%s_compute" % k) for k in
             ("dyn_gen", "prop", "fwd_prop", "onwd_prop", "gradient")]
    for p in parts:
        env.ensure(label + "times are not negative", le(env, 0, p))
    env.ensure(label + "no time is counted twice", le(env, sum(parts[1:], parts[0]), total))


def le(env, a, b):
    if env.sym:
        return a <= b
    return float(a) <= float(b) + 1e-9
