"""C16 GRAPE iterations (grape_unitary, cy_grape_unitary)"""
import numpy as np
from . import grapelib as gl

BOUNDS = ("one qubit, 1-2 arbitrary (not necessarily Hermitian) control operators, 1-3 time slots "
          "of equal duration, 1-3 rows of pulses (up to 2 updates), arbitrary target matrix, "
          "drift, start pulses, times, step size, limits and penalties, all symbolic; limits in "
          "configurations of at most 3 clipped amplitudes")
OUTSIDE = ("non-uniform time grids (the code takes the first interval for all), interpolation "
           "other than linear, negative penalties, larger systems")
ASSUMPTIONS = ["lower limit <= upper limit"]
MAX_PATHS = 800
BRANCH_NL = False    # infeasible branches are explored instead of being pruned


def configs(tier):
    out = []
    big = tier != "quick"
    base = dict(J=1, M=3, R=2, ps=1, limits=0, start="arr", alpha=0, beta=0, interp=0, eps=1)
    def add(**k):
        for f in ("grape_unitary", "cy_grape_unitary"):
            out.append(dict(base, fn=f, **k))
    for ps in (0, 1):
        for J, M in ((1, 2), (2, 3), (1, 4)):
            add(J=J, M=M, ps=ps)
        for start in ("none", "list", "scalar", "arr"):
            add(start=start, ps=ps)
        for pen in ((1, 0), (0, 1), (1, 1)):
            add(alpha=pen[0], beta=pen[1], ps=ps, M=4 if pen[1] else 3)
        add(ps=ps, eps=0)
        add(ps=ps, interp=1)
        add(ps=ps, R=3, M=2)
        add(ps=ps, R=3, M=3)
        add(ps=ps, R=3, M=3, interp=1)
        for start in ("none", "list", "scalar", "arr"):
            add(ps=ps, limits=1, start=start, M=2)
        add(ps=ps, limits=1, J=2, M=2, start="none")
        add(ps=ps, limits=1, M=3, start="none")
        add(ps=ps, limits=1, M=3, start="none", beta=1)
        add(ps=ps, limits=1, M=2, start="arr", alpha=1)
        add(ps=ps, limits=1, R=3, J=1, M=2, start="none")
        if big:
            add(ps=ps, J=2, M=4, R=3)
            add(ps=ps, J=2, M=4, alpha=1, beta=1)
            add(ps=ps, limits=1, R=3, J=1, M=3, start="none")
            add(ps=ps, limits=1, J=2, M=3, start="none")
            add(ps=ps, limits=1, J=2, M=2)
            add(ps=ps, limits=1, J=1, M=3, start="arr", alpha=1, beta=1)
    for limits in (0, 1):
        for start in ("arr", "none"):
            add(R=1, limits=limits, start=start)
    for bad in ("one", "three"):
        add(limits=bad)
    seen = []
    for c in out:
        if c not in seen:
            seen.append(c)
    return seen


extras = gl.extras


def harness(env, cfg):
    import qutip_qtrl.grape as gr
    s = gl.setup(env, cfg)
    fn = getattr(gr, cfg["fn"])
    if s["bad"]:
        env.raises("limits that are not a pair are rejected", ValueError,
                   lambda: fn(**s["args"]))
        return
    res = fn(**s["args"])
    R, J, M = cfg["R"], cfg["J"], cfg["M"]
    gl.unchanged(env, cfg, s)
    u = env.mat(res.u)
    env.ensure("one row of pulses per iteration", np.shape(u) == (R, J, M))
    for j in range(J):
        for m in range(M):
            env.eq("start pulse %d,%d" % (j, m), u[0, j, m], s["start"][j][m])
    for r in range(R - 1):
        row = [[u[r, j, m] for m in range(M)] for j in range(J)]
        g = gl.direction(env, cfg, s, row)
        for j in range(J):
            for m in range(M - 1):
                w = row[j][m] + s["eps"] * g[j][m]
                if cfg["limits"]:
                    w = env.clip(w, s["lo"], s["hi"])
                env.eq("pulse %d,%d after update %d" % (j, m, r), u[r + 1, j, m], w)
            env.eq("last value of pulse %d after update %d" % (j, r), u[r + 1, j, M - 1],
                   u[r + 1, j, M - 2])
    gl.final(env, cfg, s, res, [[u[R - 1, j, m] for m in range(M)] for j in range(J)])
