"""pulse generator construction shared by C10, C11, C15"""
import math
import numpy as np

PERIODIC = ["SINE", "SQUARE", "SAW", "TRIANGLE"]
RANDOM = ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2"]
OTHER = ["LIN", "ZERO", "GAUSSIAN", "GAUSSIAN_EDGE"]
ALL = RANDOM + PERIODIC + OTHER
INF = float("inf")


def make(env, cfg, params=None, scaling=True, offset=True):
    """generator of cfg['gen'], standalone or linked to a Dynamics; returns
    (pgen, info) with info.T, info.tau, info.scale, info.off"""
    import qutip_qtrl.pulsegen as pg

    class I:
        pass
    info = I()
    n = info.n = cfg["n"]
    params = dict(params or {})
    info.scale = env.real("scale") if scaling is True else scaling
    info.off = env.real("off") if offset else 0.0
    if cfg.get("dyn"):
        import qutip_qtrl.dynamics as dy
        import qutip_qtrl.optimconfig as oc
        d = dy.DynamicsGenMat(oc.OptimConfig())
        info.dyn = d
        if cfg["dyn"] == "tau":
            info.tau = [env.pos("tau_%d" % k) for k in range(n)]
            d.tau = env.arr(np.array(info.tau, dtype=object), "real")
            info.T = sum(info.tau[1:], info.tau[0])
        else:
            info.T = env.pos("T")
            d.num_tslots = n
            d.evo_time = info.T
            info.tau = [info.T / n] * n
        d.initial_ctrl_scaling = info.scale
        d.initial_ctrl_offset = info.off
        g = pg.create_pulse_gen(cfg["gen"], dyn=d, pulse_params=params or None)
    else:
        info.T = env.pos("T")
        info.tau = [info.T / n] * n
        params.update(num_tslots=n, pulse_time=info.T, scaling=info.scale, offset=info.off)
        if cfg["gen"] in ("RNDFOURIER", "RNDWAVES"):
            # limits default to fractions of the pulse time at construction
            params.setdefault("min_wavelen", info.T / 10)
            if cfg["gen"] == "RNDWAVES":
                params.setdefault("max_wavelen", 2 * info.T)
        if cfg["gen"] == "GAUSSIAN":
            params.setdefault("mean", info.T / 2)
            params.setdefault("variance", info.T / 2)
        if cfg["gen"] == "GAUSSIAN_EDGE":
            params.setdefault("decay_time", info.T / 10)
        g = pg.create_pulse_gen(cfg["gen"], pulse_params=params)
    info.times = [0.0]
    for k in range(n - 1):
        info.times.append(info.times[-1] + info.tau[k])
    return g, info


def gen(env, g, *a, **k):
    """the pulse, with anything written to stdout swallowed"""
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return g.gen_pulse(*a, **k)


def le(env, a, b, tol=1e-9):
    if env.sym:
        return a <= b
    return a <= b + tol * max(1.0, abs(b), abs(a))


def inside(env, label, pulse, lb, ub, n):
    p = env.mat(pulse)
    env.ensure(label + " length", tuple(np.shape(p)) == (n,))
    for k in range(n):
        x = p[k]
        if not env.sym or isinstance(x, float):
            env.ensure("%s[%d] finite" % (label, k), bool(np.isfinite(float(x))))
        if lb is not None:
            env.ensure("%s[%d] >= lbound" % (label, k), le(env, lb, x))
        if ub is not None:
            env.ensure("%s[%d] <= ubound" % (label, k), le(env, x, ub))
