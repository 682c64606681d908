"""C11 pulse shapes"""
import math
import numpy as np
from symq import core
from qutip_qtrl import pulsegen as pg
from . import pulselib as pl

BOUNDS = ("1-4 slots, uniform or arbitrary slot durations; scaling, offset, pulse time, shape "
          "parameters and every random draw symbolic; parameters given at construction, to "
          "init_pulse or to gen_pulse, repeated generation and re-initialisation")
OUTSIDE = "sampling distribution of the random generators; RNDFOURIER/RNDWAVES amplitudes"
TWO_PI = 2 * math.pi


def configs(tier):
    out = []
    big = tier != "quick"
    for dyn in (None, "tau", "uni"):
        n = 4 if big else 3
        for g in ("ZERO", "RND", "RNDWALK1", "RNDWALK2", "RNDFOURIER", "RNDWAVES"):
            out.append(dict(kind=g, gen=g, dyn=dyn, n=n if "WALK" in g or big else 2))
            if g.startswith("RNDWALK"):
                out.append(dict(kind=g, gen=g, dyn=dyn, n=n, via="gen"))
        for via in ("param", "gen", "init", "grad_param", "grad_gen", "grad_gen_end"):
            out.append(dict(kind="LIN", gen="LIN", dyn=dyn, n=n, via=via))
        for g in pl.PERIODIC:
            for drv in ("freq", "wavelen", "num_waves"):
                for via in ("param", "gen", "init"):
                    out.append(dict(kind="periodic", gen=g, dyn=dyn, n=2 if not big else 3,
                                    drv=drv, via=via))
            if big or dyn != "tau":
                out.append(dict(kind="periodic", gen=g, dyn=dyn, n=2, drv="freq",
                                via="switch"))
        for g in ("GAUSSIAN", "GAUSSIAN_EDGE"):
            for via in ("param", "gen", "default", "zero"):
                out.append(dict(kind=g, gen=g, dyn=dyn, n=2 if not big else 3, via=via))
    for via in ("param", "gen"):
        out.append(dict(kind="wavelen", via=via))
        for w in (2, 3) if not big else (2, 3, 4, 5):
            out.append(dict(kind="octaves", via=via, waves=w))
    for b in ("fit", "up", "low", "both"):
        out.append(dict(kind="bounded", gen="LIN", dyn="tau", n=3, bnd=b))
    return out


def extras(env, cfg):
    core.OPAQUE = "bounded" if cfg["kind"] in ("RNDFOURIER", "RNDWAVES", "wavelen", "octaves") else False
    return ()


def harness(env, cfg):
    globals()["h_" + cfg["kind"].lower()](env, cfg)


def check(env, info, g, pulse, raw, label="pulse"):
    p = env.mat(pulse)
    env.ensure(label + " length", np.shape(p) == (info.n,))
    for k in range(info.n):
        env.eq("%s[%d]" % (label, k), p[k], info.scale * raw[k] + info.off)


def h_zero(env, cfg):
    g, info = pl.make(env, cfg)
    check(env, info, g, pl.gen(env, g), [0.0] * info.n)


def within(env, label, x, m):
    a = env.abs(m)
    env.ensure(label, pl.le(env, env.abs(x), a))


def h_rnd(env, cfg):
    g, info = pl.make(env, cfg)
    p = env.mat(pl.gen(env, g))
    env.ensure("length", np.shape(p) == (info.n,))
    for k in range(info.n):
        within(env, "range %d" % k, p[k] - info.off, info.scale)
    if env.sym:     # every slot has its own draw, spanning the whole range
        env.ensure("own draw per slot", len({(p[k] - info.off).key()
                                             for k in range(info.n)}) == info.n)


def _len_only(env, cfg):
    p = dict(num_comp_waves=2) if cfg["gen"] == "RNDWAVES" else {}
    g, info = pl.make(env, cfg, p, scaling=1.3)
    g.min_wavelen = info.T * 0.75
    pulse = env.mat(pl.gen(env, g))
    env.ensure("length", np.shape(pulse) == (info.n,))
    for k in range(info.n):
        x = pulse[k]
        lim = math.sqrt(8) * (1 + 1e-9)
        within(env, "range %d" % k, x - info.off, info.scale * lim)


h_rndfourier = h_rndwaves = _len_only


def wave_args(env, p, waves):
    """arguments of the component waves in each slot; None where the pulse is not a sum of
    `waves` sines or cosines"""
    a = [core.opaque_args(x) for x in p]
    return a if all(len(x) == waves for x in a) else None


def h_wavelen(env, cfg):
    """one random wave: its wavelength lies between the limits"""
    core.OPAQUE = "bounded"
    lo = env.real("lo", 0.7, 0.9)
    hi = lo + env.real("range", 0.05, 3)
    T = env.real("T1", 1, 5)
    n, off = 3, env.real("off1", -2, 2)
    pr = dict(num_tslots=n, pulse_time=T, scaling=1.3, offset=off)
    kw = dict(num_comp_waves=1, min_wavelen=lo * T, max_wavelen=hi * T)
    if cfg["via"] == "param":
        pr.update(kw)
        kw = {}
    else:
        pr.update(min_wavelen=T / 10, max_wavelen=2 * T)
    g = pg.create_pulse_gen("RNDWAVES", pulse_params=pr)
    p = env.mat(pl.gen(env, g, **kw))
    w = TWO_PI / n
    if env.sym:
        a = wave_args(env, p, 1)
        if a is None:
            return
        for k in range(n - 1):
            d = env.abs(a[k + 1][0] - a[k][0])
            env.ensure("wavelength at least the minimum", d * lo <= w * (1 + 1e-9))
            env.ensure("wavelength at most the maximum", d * hi >= w * (1 - 1e-9))
    else:
        # p[0] + p[2] = 2 cos(w / wavelength) p[1]
        x = [float(v) - off for v in p]
        if abs(x[1]) < 1e-6:
            return
        c = (x[0] + x[2]) / (2 * x[1])
        lam = w / math.acos(min(1.0, max(-1.0, c)))
        env.ensure("wavelength at least the minimum", lam >= lo - 1e-6)
        env.ensure("wavelength at most the maximum", lam <= hi + 1e-6)


def h_octaves(env, cfg):
    """the components of the random Fourier pulse: twice the pulse time and halves of it, all
    above the minimum"""
    core.OPAQUE = "bounded"
    waves = cfg["waves"]
    T = env.real("T1", 1, 5)
    n, off = 2 * waves + 2, env.real("off1", -2, 2)
    m = env.real("min", 2.0 ** (1 - waves), 2.0 ** (2 - waves) * 0.999)
    pr = dict(num_tslots=n, pulse_time=T, scaling=1.3, offset=off, min_wavelen=T / 10)
    kw = dict(min_wavelen=m * T)
    if cfg["via"] == "param":
        pr.update(kw)
        kw = {}
    g = pg.create_pulse_gen("RNDFOURIER", pulse_params=pr)
    p = env.mat(pl.gen(env, g, **kw))
    if env.sym:
        a = [core.opaque_args(x) for x in p]
        if not all(a):
            return
        env.ensure("components", all(len(x) == waves for x in a))
        for i in range(waves):
            for k in range(n - 1):
                d = env.abs(a[k + 1][i] - a[k][i])
                env.eq("components", d * n, TWO_PI / 2.0 ** (1 - i))
    else:
        t = np.arange(n) / n
        B = np.array([f(TWO_PI * t / 2.0 ** (1 - i)) for i in range(waves)
                      for f in (np.sin, np.cos)]).T
        y = np.array([float(v) for v in p]) - off
        r = y - B.dot(np.linalg.lstsq(B, y, rcond=None)[0])
        env.ensure("components", np.abs(r).max() < 1e-6)


def h_rndwalk1(env, cfg):
    m = env.real("mda")
    if cfg.get("via") == "gen":
        g, info = pl.make(env, cfg)
        p = env.mat(pl.gen(env, g, max_d_amp=m))
    else:
        g, info = pl.make(env, cfg, dict(max_d_amp=m))
        p = env.mat(pl.gen(env, g))
    env.ensure("length", np.shape(p) == (info.n,))
    within(env, "start", p[0] - info.off, info.scale)
    for k in range(info.n - 1):
        within(env, "step %d" % k, p[k + 1] - p[k], m * info.scale)


def h_rndwalk2(env, cfg):
    m = env.real("mda")
    if cfg.get("via") == "gen":
        g, info = pl.make(env, cfg)
        p = env.mat(pl.gen(env, g, max_d2_amp=m))
    else:
        g, info = pl.make(env, cfg, dict(max_d2_amp=m))
        p = env.mat(pl.gen(env, g))
    env.ensure("length", np.shape(p) == (info.n,))
    within(env, "start", p[0] - info.off, info.scale)
    last = 0
    for k in range(info.n - 1):
        d = p[k + 1] - p[k]
        within(env, "gradient change %d" % k, d - last, m * info.scale)
        last = d


def h_lin(env, cfg):
    sv, ev, gr = env.real("sv"), env.real("ev"), env.real("gr")
    via = cfg["via"]
    if via == "param":
        g, info = pl.make(env, cfg, dict(start_val=sv, end_val=ev))
        pulse = pl.gen(env, g)
    elif via == "grad_param":
        g, info = pl.make(env, cfg, dict(start_val=sv, end_val=None, gradient=gr))
        pulse = pl.gen(env, g)
    else:
        g, info = pl.make(env, cfg)
        if via == "gen":
            pulse = pl.gen(env, g, start_val=sv, end_val=ev)
        elif via == "init":
            g.init_pulse(start_val=sv, end_val=ev)
            pulse = pl.gen(env, g)
        elif via == "grad_gen":
            pulse = pl.gen(env, g, gradient=gr, start_val=sv)
        else:
            pulse = pl.gen(env, g, gradient=gr, end_val=ev)
    t = info.times
    if via.startswith("grad"):
        s0 = ev - gr * t[-1] if via == "grad_gen_end" else sv
        raw = [s0 + gr * t[k] for k in range(info.n)]
    else:
        raw = [sv + (ev - sv) * t[k] / t[-1] for k in range(info.n)]
    check(env, info, g, pulse, raw)
    check(env, info, g, pl.gen(env, g), raw, "second pulse")


def shape(env, gen, x):
    """value in [-1, 1] of the wave after x cycles"""
    if gen == "SINE":
        return env.sin(x * TWO_PI)
    if gen == "SAW":
        q = x - env.floor(x)
        return 2 * q if bool(q < 0.5) else 2 * q - 2
    q = x - env.floor(x)
    if gen == "SQUARE":
        return 1.0 if bool(q < 0.5) else -1.0
    if bool(q < 0.25):
        return 4 * q
    if bool(q < 0.75):
        return 2 - 4 * q
    return 4 * q - 4


def near_edge(env, gen, x):
    """replays stay away from the jumps of the wave"""
    if not env.sym:
        y = (x * 4) % 1.0
        if min(y, 1 - y) < 1e-6:
            from symq.harness import Skip
            raise Skip()


def h_periodic(env, cfg):
    drv, via = cfg["drv"], cfg["via"]
    v = env.pos("v")
    sp = env.real("sp") * TWO_PI        # start phase, in cycles
    if via == "switch":                 # another driver given later takes over
        g, info = pl.make(env, cfg, dict(num_waves=env.pos("w"), start_phase=sp))
        pl.gen(env, g)
        pulse = pl.gen(env, g, freq=v)
    elif via == "param":
        g, info = pl.make(env, cfg, {drv: v, "start_phase": sp})
        pulse = pl.gen(env, g)
    else:
        g, info = pl.make(env, cfg)
        if via == "gen":
            pulse = pl.gen(env, g, **{drv: v, "start_phase": sp})
        else:
            g.init_pulse(**{drv: v, "start_phase": sp})
            pulse = pl.gen(env, g)
    f = {"freq": lambda: v, "wavelen": lambda: 1 / v,
         "num_waves": lambda: v / info.T}[drv]()
    xs = [f * t + sp / TWO_PI for t in info.times]
    if cfg["gen"] != "SINE":
        for x in xs:
            near_edge(env, cfg["gen"], x)
    raw = [shape(env, cfg["gen"], x) for x in xs]
    check(env, info, g, pulse, raw)
    env.eq("frequency", g.freq, f)
    env.eq("wavelength", g.wavelen * f, 1)
    env.eq("number of waves", g.num_waves, f * info.T)
    g.init_pulse()
    check(env, info, g, pl.gen(env, g), raw, "pulse after re-initialisation")


def h_gaussian(env, cfg):
    via = cfg["via"]
    mean, var = env.real("mean"), env.pos("var")
    if via == "zero":
        mean = 0.0
    if via == "param":
        g, info = pl.make(env, cfg, dict(mean=mean, variance=var))
        pulse = pl.gen(env, g)
    else:
        g, info = pl.make(env, cfg)
        if via == "default":
            mean = var = info.T / 2
            pulse = pl.gen(env, g)
        else:
            pulse = pl.gen(env, g, mean=mean, variance=var)
    raw = [env.exp(-(t - mean) * (t - mean) / (2 * var)) for t in info.times]
    check(env, info, g, pulse, raw)


def h_gaussian_edge(env, cfg):
    via = cfg["via"]
    td = env.pos("td")
    if via == "param":
        g, info = pl.make(env, cfg, dict(decay_time=td))
        pulse = pl.gen(env, g)
    else:
        g, info = pl.make(env, cfg)
        if via in ("default", "zero"):
            td = info.T / 10
            pulse = pl.gen(env, g)
        else:
            pulse = pl.gen(env, g, decay_time=td)
    raw = [1 - env.exp(-t * t / td) - env.exp(-(t - info.T) * (t - info.T) / td)
           for t in info.times]
    check(env, info, g, pulse, raw)


def h_bounded(env, cfg):
    """bounds only shift or scale, and leave a pulse that fits alone"""
    sv, ev = env.real("sv"), env.real("ev")
    b = cfg["bnd"]
    p = dict(start_val=sv, end_val=ev)
    lo, hi = env.real("lb"), env.real("ub")
    env.assume(lo <= hi)
    if b != "up":
        p["lbound"] = lo
    if b != "low":
        p["ubound"] = hi
    g, info = pl.make(env, cfg, p, scaling=-1.3 if b == "both" else True)
    t = info.times
    raw = [info.scale * (sv + (ev - sv) * t[k] / t[-1]) for k in range(info.n)]
    if b == "fit":
        for r in (raw[0], raw[-1]):
            env.assume(lo <= r + info.off)
            env.assume(r + info.off <= hi)
    pulse = env.mat(pl.gen(env, g))
    if b == "fit":
        check(env, info, g, pulse, [sv + (ev - sv) * t[k] / t[-1] for k in range(info.n)])
    elif b in ("up", "low"):
        for k in range(1, info.n):
            env.eq("differences kept %d" % k, pulse[k] - pulse[0], raw[k] - raw[0])
    else:
        env.eq("shape kept", (pulse[1] - pulse[0]) * (raw[2] - raw[0]),
               (pulse[2] - pulse[0]) * (raw[1] - raw[0]))
        rng, prng = raw[2] - raw[0], pulse[2] - pulse[0]
        env.ensure("not inverted", pl.le(env, 0, rng * prng))
        # a pulse that is not too high is not scaled
        if bool(env.abs(rng) <= hi - lo):
            env.eq("not scaled", prng, rng)
