"""C15 CRAB pulses and their parameters"""
import math
import numpy as np
from symq import core
from . import optlib as ol

BOUNDS = ("2-3 slots of equal or arbitrary duration, 1-3 coefficients per basis function, fixed "
          "and optimised frequencies; 2 controls with different numbers of coefficients in the "
          "optimiser; all coefficients, durations, scalings, random draws, guess and ramp "
          "pulses symbolic; no amplitude bounds (these are in C10)")
OUTSIDE = ("the initial value of optimised frequencies, and how a one-dimensional array of the "
           "wrong length is treated")


def configs(tier):
    out = []
    big = tier != "quick"
    for fix in (1, 0):
        for via in ("random", "equal", "init", "set", "gen", "gen_uninit", "roundtrip", "est",
                    "default", "call_num"):
            for n, nco in ((2, 1), (3, 2)) + (((4, 3),) if big else ()):
                for dyn in (0, 1):
                    if via == "est" and not dyn or via == "default" and (dyn or n > 2):
                        continue
                    out.append(dict(kind="pulse", fix=fix, via=via, n=n, nco=nco, dyn=dyn,
                                    guess="", ramp=0))
        for guess in ("ADD", "MODULATE", "add", "modulate", "none", "other", "nopulse"):
            for ramp in (0, 1):
                for again in (0, 1):
                    out.append(dict(kind="pulse", fix=fix, via="init", n=2, nco=2, dyn=1 - ramp,
                                    guess=guess, ramp=ramp, again=again))
    for dyn in (0, 1):
        for n in (1, 2, 3):
            for rnd in (0, 1):
                out.append(dict(kind="freqs", n=n, dyn=dyn, rnd=rnd))
    for opt in ("OptimizerCrab", "OptimizerCrabFmin"):
        for sizes in ((1, 2), (2, 1), (2, 2)):
            for fix in (1, 0):
                out.append(dict(kind="opt", opt=opt, sizes="%d%d" % sizes, fix=fix, n=2))
    return out


class FakeDyn:
    pass


def dynobj(env, cfg):
    import qutip_qtrl.dynamics as dy
    import qutip_qtrl.optimconfig as oc
    d = dy.DynamicsGenMat(oc.OptimConfig())
    taus = [env.pos("tau%d" % k) for k in range(cfg["n"])]
    d.tau = env.arr(np.array(taus, dtype=object), "real")
    N = cfg.get("N", 4)
    d.drift_dyn_gen = env.qobj(env.arr(np.eye(N)))
    d.ctrl_dyn_gen = [env.qobj(env.arr(np.eye(N)))]
    d.initial_ctrl_scaling = env.real("scale")
    return d, taus


def make(env, cfg, params=None, nco="given", **k):
    import qutip_qtrl.pulsegen as pg
    n = cfg["n"]
    p = dict(params or {})
    if cfg.get("dyn"):
        d, taus = dynobj(env, cfg)
        T = sum(taus[1:], taus[0])
        sc = d.initial_ctrl_scaling
    else:
        d = None
        T = env.pos("T")
        taus = [T / n] * n
        sc = env.real("scale")
        p.update(num_tslots=n, pulse_time=T, scaling=sc)
    if nco == "given":
        k["num_coeffs"] = cfg["nco"]
    g = pg.PulseGenCrabFourier(dyn=d, params=p or None, fix_freqs=bool(cfg["fix"]), **k)
    times = [0.0]
    for i in range(n - 1):
        times.append(times[-1] + taus[i])
    return g, times, T, sc


def value(env, g, cfg, c, times, T):
    """the Fourier sum of the coefficients c at the slot start times"""
    out = []
    for t in times:
        v = 0
        for i in range(len(c)):
            f = g.freqs[i] if cfg["fix"] else c[i, 2]
            v = v + c[i, 0] * env.sin(f * t) + c[i, 1] * env.cos(f * t)
        out.append(v)
    return out


def compare(env, label, g, cfg, c, times, T, pulse, mod=None):
    p = env.mat(pulse)
    env.ensure(label + " length", np.shape(p) == (cfg["n"],))
    w = value(env, g, cfg, c, times, T)
    if mod:
        w = mod(w)
    for k in range(cfg["n"]):
        env.eq("%s[%d]" % (label, k), p[k], w[k])


def freqs(env, cfg, g, T, n, rnd=True):
    f = g.freqs
    env.ensure("one frequency per coefficient", len(f) == n)
    for i in range(n):
        h = 2 * math.pi * (i + 1) / T
        off = f[i] - h
        if rnd:
            tol = 0 if env.sym else 1e-9
            env.ensure("frequency %d within half a unit of the harmonic" % i,
                       off >= -0.5 - tol)
            env.ensure("frequency %d below half a unit off the harmonic" % i, off <= 0.5 + tol)
        else:
            env.eq("frequency %d is the harmonic" % i, f[i], h)


def harness(env, cfg):
    globals()["h_" + cfg["kind"]](env, cfg)


def h_freqs(env, cfg):
    cfg = dict(cfg, nco=cfg["n"], fix=1, N=2)
    g, times, T, sc = make(env, cfg)
    if not cfg["rnd"]:
        g.randomize_freqs = False
    g.init_pulse()
    freqs(env, cfg, g, T, cfg["nco"], cfg["rnd"])
    # generating pulses and setting coefficients leave them as they are
    f0 = list(g.freqs)
    g.gen_pulse()
    g.set_optim_var_vals(env.rarr("x", (2 * cfg["nco"],)))
    g.gen_pulse()
    for i, f in enumerate(f0):
        env.eq("frequency %d kept" % i, g.freqs[i], f)


def h_pulse(env, cfg):
    via, n, nco = cfg["via"], cfg["n"], cfg["nco"]
    nb = 2 if cfg["fix"] else 3
    par = {}
    gp = rp = None
    if cfg["guess"]:
        if cfg["guess"] != "nopulse":
            gp = env.rarr("guess", (n,))
            par["guess_pulse"] = gp
        if cfg["guess"] != "nopulse":
            par["guess_pulse_action"] = {"none": None, "other": "SOMETHING"}.get(
                cfg["guess"], cfg["guess"])
    if cfg["ramp"]:
        rp = env.rarr("ramp", (n,))
        par["ramping_pulse"] = rp
    if via == "est":
        g, times, T, sc = make(env, dict(cfg, N=2 * n - 2), par, nco=None)
        nco = max(2, 2 * n - 3)
    elif via in ("default", "call_num"):
        g, times, T, sc = make(env, cfg, par, nco=None)
        nco = 4 if via == "default" else nco
    else:
        g, times, T, sc = make(env, cfg, par)
    cfg = dict(cfg, nco=nco)
    if via == "equal":
        g.randomize_coeffs = False
    x = env.rarr("x", (nco * nb,))
    c = x.reshape((nco, nb))
    if via == "init":
        g.init_pulse(init_coeffs=x)
    elif via == "call_num":
        g.init_pulse(num_coeffs=nco)
    elif via != "gen_uninit":
        g.init_pulse()
    if via != "gen_uninit":
        env.ensure("number of variables", g.num_optim_vars == nco * nb)
        env.ensure("coefficient shape", np.shape(g.coeffs) == (nco, nb))
        if cfg["fix"]:
            freqs(env, cfg, g, T, nco)
    if via in ("random", "est", "default", "call_num", "roundtrip"):
        for i in range(nco):
            for j in range(nb):
                a = sc if env.sym else sc
                v = g.coeffs[i, j]
                tol = 0 if env.sym else 1e-9
                env.ensure("coefficient within the scaling", v * v <= a * a + tol)
        c = g.coeffs.copy()
    elif via == "equal":
        for i in range(nco):
            for j in range(nb):
                env.eq("coefficient equals the scaling", g.coeffs[i, j], sc)
        c = g.coeffs.copy()
    if via == "set":
        g.set_optim_var_vals(x)
    if via == "gen" or via == "gen_uninit":
        p = g.gen_pulse(c)
        env.eq("coefficients taken over", g.coeffs, c)
    else:
        p = g.gen_pulse()
    act = (par.get("guess_pulse_action") or "").upper()

    def mod(w):
        if gp is not None and act == "ADD":
            w = [w[k] + gp[k] for k in range(n)]
        if gp is not None and act == "MODULATE":
            w = [(1 + w[k]) * gp[k] for k in range(n)]
        if rp is not None:
            w = [w[k] * rp[k] for k in range(n)]
        return w
    g0 = None if gp is None else gp.copy()
    compare(env, "pulse", g, cfg, c, times, T, p, mod)
    v = g.get_optim_var_vals()
    env.ensure("number of values", len(v) == nco * nb)
    for i in range(nco):
        for j in range(nb):
            env.eq("value %d" % (i * nb + j), v[i * nb + j], c[i, j])
    # the same again
    compare(env, "second pulse", g, cfg, c, times, T, g.gen_pulse(), mod)
    if cfg.get("again") or via == "roundtrip":
        y = env.rarr("y", (nco * nb,))
        g.set_optim_var_vals(y)
        compare(env, "other pulse", g, cfg, y.reshape((nco, nb)), times, T, g.gen_pulse(), mod)
        g.set_optim_var_vals(env.arr(np.array(v, dtype=object if env.sym else float)))
        compare(env, "values set back", g, cfg, c, times, T, g.gen_pulse(), mod)
    if gp is not None:
        env.eq("guess pulse untouched", g.guess_pulse, g0)


def h_opt(env, cfg):
    """coefficients of several controls through the optimiser"""
    import qutip_qtrl.dynamics as dy
    import qutip_qtrl.optimconfig as oc
    import qutip_qtrl.optimizer as om
    import qutip_qtrl.pulsegen as pg
    d, taus = dynobj(env, dict(cfg, N=2))
    I = env.qobj(env.arr(np.eye(2)))
    d.ctrl_dyn_gen = [I, I]
    nb = 2 if cfg["fix"] else 3
    sizes = [int(x) for x in cfg["sizes"]]
    gens = []
    xs = []
    for j in range(2):
        g = pg.PulseGenCrabFourier(dyn=d, num_coeffs=sizes[j], fix_freqs=bool(cfg["fix"]))
        x = env.rarr("x%d" % j, (sizes[j] * nb,))
        g.init_pulse(init_coeffs=x)
        gens.append(g)
        xs.append(x)
    o = getattr(om, cfg["opt"])(oc.OptimConfig(), d)
    o.pulse_generator = gens
    v = o._get_optim_var_vals()
    flat = [a for x in xs for a in x]
    env.ensure("number of variables", len(v) == len(flat))
    for i, a in enumerate(flat):
        env.eq("variable %d" % i, v[i], a)
    times = [0.0, taus[0]]
    y = env.rarr("y", (len(flat),))
    for vec, lab in ((v, "initial"), (y, "new")):
        amps = o._get_ctrl_amps(vec)
        env.ensure("shape", np.shape(amps) == (2, 2))
        k = 0
        for j in range(2):
            c = vec[k:k + sizes[j] * nb].reshape((sizes[j], nb))
            k += sizes[j] * nb
            w = value(env, gens[j], cfg, c, times, None)
            for t in range(2):
                env.eq("%s amplitude [%d,%d]" % (lab, t, j), amps[t, j], w[t])
    w = o._get_optim_var_vals()
    for i in range(len(flat)):
        env.eq("variable %d after" % i, w[i], y[i])
