"""C10 generated pulses respect their bounds"""
import numpy as np
from symq import core
from . import pulselib as pl

BOUNDS = ("3 slots (4 in the thorough tier); scaling, offset, both bounds, pulse time, slot "
          "durations, shape parameters and every random draw symbolic; bounds absent, "
          "infinite or finite on either side; up to 2 component waves for RNDWAVES; CRAB with "
          "1-2 coefficients and guess/ramping pulses")
ASSUMPTIONS = ["for the wave-shaped and Gaussian generators the raw shape values (sin, floor, "
               "exp) are arbitrary reals, which covers every shape they can produce"]
BNDS = ["none", "inf", "up", "low", "up_inf", "low_inf", "both", "eq"]


def configs(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for g in pl.ALL:
        for b in BNDS:
            for dyn in (None, "tau"):
                if tier == "quick" and dyn and b not in ("both", "inf"):
                    continue
                m = n
                if g in ("RNDFOURIER", "RNDWAVES", "GAUSSIAN", "GAUSSIAN_EDGE",
                         "TRIANGLE", "SQUARE", "LIN"):
                    m = n - 1
                out.append(dict(kind="gen", gen=g, bnd=b, dyn=dyn, n=m))
        out.append(dict(kind="bad", gen=g, n=2, dyn=None))
    for b in BNDS:
        for fix in (1, 0):
            for guess in (None, "MODULATE", "ADD"):
                for ramp in (0, 1):
                    if tier == "quick" and (ramp != (guess == "ADD")):
                        continue
                    out.append(dict(kind="crab", bnd=b, fix=fix, guess=guess, ramp=ramp,
                                    n=1 if tier == "quick" and b not in ("both", "eq")
                                    else 2, nco=1 if tier == "quick" else 2))
    out.append(dict(kind="crabbad"))
    return out


def bounds(env, b):
    lo = hi = None
    slo, shi = None, None
    if b in ("up", "up_inf", "both", "eq"):
        hi = shi = env.real("ub")
    if b in ("low", "low_inf", "both"):
        lo = slo = env.real("lb")
    if b == "both":
        env.assume(lo <= hi)
    if b == "eq":
        lo = slo = hi
    if b in ("inf", "up_inf"):
        slo = -pl.INF
    if b in ("inf", "low_inf"):
        shi = pl.INF
    return lo, hi, slo, shi


def harness(env, cfg):
    if cfg["kind"] == "crab":
        return crab(env, cfg)
    if cfg["kind"] == "crabbad":
        import qutip_qtrl.pulsegen as pg
        lo, hi = env.real("lb"), env.real("ub")
        env.assume(hi < lo)
        g = pg.PulseGenCrabFourier(params=dict(num_tslots=2, lbound=lo, ubound=hi))
        env.raises("crossed bounds refused", ValueError, g.init_pulse)
        return
    p = {}
    if cfg["gen"] == "RNDWAVES":
        p["num_comp_waves"] = 2
    if cfg["gen"] == "LIN":
        p.update(start_val=env.real("sv"), end_val=env.real("ev"))
    if cfg["gen"] in pl.PERIODIC:
        p.update(freq=env.pos("fr"), start_phase=env.real("sp"))
    if cfg["gen"] in ("RNDWALK1",):
        p["max_d_amp"] = env.real("mda")
    if cfg["gen"] in ("RNDWALK2",):
        p["max_d2_amp"] = env.real("mda")
    if cfg["kind"] == "bad":
        lo, hi = env.real("lb"), env.real("ub")
        env.assume(hi < lo)
        g, info = pl.make(env, cfg, dict(p, lbound=lo, ubound=hi))
        env.raises("crossed bounds refused", ValueError, lambda: pl.gen(env, g))
        return
    lo, hi, slo, shi = bounds(env, cfg["bnd"])
    if slo is not None:
        p["lbound"] = slo
    if shi is not None:
        p["ubound"] = shi
    if cfg["gen"] == "RNDFOURIER":
        p["min_wavelen"] = None
    g, info = make_rf(env, cfg, p)
    pulse = pl.gen(env, g)
    pl.inside(env, "pulse", pulse, lo, hi, info.n)


def opaque(cfg):
    return cfg["kind"] == "crab" or cfg["kind"] == "gen" and cfg["gen"] in pl.PERIODIC + [
        "RNDFOURIER", "RNDWAVES", "GAUSSIAN", "GAUSSIAN_EDGE"]


def extras(env, cfg):
    core.OPAQUE = opaque(cfg)
    return ()


def make_rf(env, cfg, p):
    sc = -1.7 if opaque(cfg) else True
    if cfg["gen"] == "RNDFOURIER":
        del p["min_wavelen"]
        g, info = pl.make(env, cfg, p, scaling=sc)
        g.min_wavelen = info.T * 0.75       # two component waves
        return g, info
    return pl.make(env, cfg, p, scaling=sc)


def crab(env, cfg):
    import qutip_qtrl.pulsegen as pg
    n, nco = cfg["n"], cfg["nco"]
    lo, hi, slo, shi = bounds(env, cfg["bnd"])
    p = dict(num_tslots=n, pulse_time=env.pos("T"), scaling=env.real("scale"))
    if slo is not None:
        p["lbound"] = slo
    if shi is not None:
        p["ubound"] = shi
    if cfg["guess"]:
        p["guess_pulse"] = env.rarr("guess", n)
        p["guess_pulse_action"] = cfg["guess"]
    if cfg["ramp"]:
        p["ramping_pulse"] = env.rarr("ramp", n)
    g = pg.PulseGenCrabFourier(num_coeffs=nco, params=p, fix_freqs=bool(cfg["fix"]))
    g.init_pulse()
    if cfg["bnd"] in ("both", "eq"):
        pl.inside(env, "initial pulse", g.gen_pulse(), lo, hi, n)
    g.set_optim_var_vals(env.rarr("x", nco * (2 if cfg["fix"] else 3)))
    pl.inside(env, "pulse", g.gen_pulse(), lo, hi, n)
