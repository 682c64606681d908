"""C17 adaptive GRAPE (grape_unitary_adaptive)"""
import numpy as np
from symq import core
from . import grapelib as gl

BOUNDS = ("one qubit, 1-2 control operators, 1-2 time slots of equal duration, 1-3 rows of pulses "
          "(up to 2 iterations), three candidate steps per iteration; target, drift, start "
          "pulses, times, step size, limits, penalties and the overlap to stop at symbolic")
OUTSIDE = ("non-uniform time grids, interpolation other than linear, larger systems, the step "
           "sizes of the second and later iterations beyond being the first by a power of two")
ASSUMPTIONS = ["lower limit <= upper limit"]
MAX_PATHS = 800
BRANCH_NL = False
EXPAND = 6000


def configs(tier):
    out = []
    big = tier != "quick"
    base = dict(J=1, M=2, R=2, ps=1, limits=0, start="arr", alpha=0, beta=0, interp=0, eps=1,
                term=0)
    def add(**k):
        c = dict(base, **k)
        if c not in out:
            out.append(c)
    for ps in (0, 1):
        for J, M in ((1, 2), (1, 3), (2, 2)):
            add(J=J, M=M, ps=ps)
        for start in ("none", "list", "scalar"):
            add(start=start, ps=ps)
        add(ps=ps, alpha=1)
        add(ps=ps, alpha=1, beta=1, M=3)
        add(ps=ps, eps=0)
        add(ps=ps, interp=1)
        add(ps=ps, R=1)
        add(ps=ps, R=1, limits=1)
        add(ps=ps, R=3)
        add(ps=ps, R=3, term=1, start="none")
        add(ps=ps, limits=1, start="none", fixed=1)
        if big:
            add(ps=ps, R=3, term=1, interp=1)
            add(ps=ps, limits=1, start="none")
            add(ps=ps, R=3, J=2)
            add(ps=ps, R=3, M=3, term=1)
            add(ps=ps, limits=1, start="arr")
            add(ps=ps, limits=1, start="none", R=3)
    add(limits="one")
    add(limits="three")
    return out


extras = gl.extras


def same(env, a, b):
    """a == b as a condition"""
    if env.sym:
        return True if (core.lift(a) - b).max_coef() < 1e-9 else core.lift(a) == b
    return abs(a - b) <= 1e-7 * max(1, abs(b))


def both(x, y):
    if x is True:
        return y
    if y is True:
        return x
    if x is False or y is False:
        return False
    return x & y


def harness(env, cfg):
    import qutip_qtrl.grape as gr
    if cfg["limits"]:
        core.EXPAND_LIMIT = 0
    s = gl.setup(env, cfg)
    term = None
    if cfg["term"]:
        term = env.real("term", -1)
        env.assume(term < 1)
        s["args"]["overlap_terminate"] = term
    if s["bad"]:
        env.raises("limits that are not a pair are rejected", ValueError,
                   lambda: gr.grape_unitary_adaptive(**s["args"]))
        return
    res = gr.grape_unitary_adaptive(**s["args"])
    gl.unchanged(env, cfg, s)
    R, J, M = cfg["R"], cfg["J"], cfg["M"]
    u = env.mat(res.u)
    rows = np.shape(u)[0]
    env.ensure("shape of the pulses", np.shape(u) == (rows, J, M) and 1 <= rows <= R)
    for j in range(J):
        for m in range(M):
            env.eq("start pulse %d,%d" % (j, m), u[0, j, m], s["start"][j][m])

    def fid(row):
        o = gl.overlap(env, s, gl.evolution(env, cfg, s, row))
        return o.real if cfg["ps"] else o.real * o.real + o.imag * o.imag
    tol = 0 if env.sym else 1e-9
    prow = [[u[0, j, m] for m in range(M)] for j in range(J)]
    pfid = fid(prow)
    stopped = False
    for r in range(rows - 1):
        row = [[u[r + 1, j, m] for m in range(M)] for j in range(J)]
        g = gl.direction(env, cfg, s, prow)
        scales = (0.5, 1, 2) if r == 0 else (0.125, 0.25, 0.5, 1, 2, 4, 8)
        cands = []
        for f in scales:
            c = []
            for j in range(J):
                w = [prow[j][m] + s["eps"] * f * g[j][m] for m in range(M - 1)]
                if cfg["limits"]:
                    w = [env.clip(x, s["lo"], s["hi"]) for x in w]
                c.append(w + [w[-1]])
            cands.append(c)

        def is_row(c):
            k = True
            for j in range(J):
                for m in range(M):
                    k = both(k, same(env, row[j][m], c[j][m]))
            return k
        conds = [is_row(c) for c in [prow] + cands]
        if not any(c is True for c in conds):
            conds = [c for c in conds if c is not False]
            tot = False
            for c in conds:
                tot = c if tot is False else tot | c
            env.ensure("pulses %d are a step along the gradient, or the last ones" % (r + 1), tot)
        f = fid(row)
        env.ensure("overlap does not decrease in iteration %d" % r, f >= pfid - tol)
        if r == 0 and not cfg["limits"]:
            for c in cands:
                env.ensure("no candidate step is better than the accepted pulses",
                           f >= fid(c) - tol)
        env.eq("reported overlap %d" % r, res.overlap[r], f)
        if term is not None and f is not None:
            if r < rows - 2:
                env.ensure("iterations continue below the overlap to stop at", f <= term + tol)
            stopped = f > term
        prow, pfid = row, f
    if rows < R:
        env.ensure("iterations end early only above the overlap to stop at", stopped)
    if R > 1:
        env.eq("first step size", res.eps[0], s["eps"])
    gl.final(env, cfg, s, res, prow)
