"""systems and oracles of the GRAPE checks"""
import math
import warnings
import numpy as np

N = 2


class Interp:
    """linear interpolation of samples"""

    def __init__(self, x, y, kind="linear", bounds_error=None, fill_value=None, **k):
        if kind != "linear" or len(x) != len(y):
            raise ValueError("interp1d(%r)" % (kind,))
        if np.ndim(fill_value) != 0:
            raise ValueError("shape mismatch of the fill value")
        self.x, self.y, self.fill = list(x), list(y), fill_value

    def __call__(self, t):
        for a, b in zip(self.x, self.y):
            if bool(a == t):
                return b
        if bool(t < self.x[0]) or bool(t > self.x[-1]):
            return self.fill
        for k in range(len(self.x) - 1):
            if bool(t < self.x[k + 1]):
                return self.y[k] + (self.y[k + 1] - self.y[k]) * (t - self.x[k]) / (
                    self.x[k + 1] - self.x[k])


def extras(env, cfg):
    if not env.sym:
        return []
    from scipy.interpolate import interp1d
    return [(interp1d, Interp)]


def setup(env, cfg):
    J, M, R = cfg["J"], cfg["M"], cfg["R"]
    warnings.simplefilter("ignore")
    s = dict(bad=False)
    s["U"], s["H0"] = env.carr("U", (N, N)), env.herm("H0", N)
    if cfg["limits"] and R > 1:
        # fixed operators: the clipping decisions are over fewer symbols
        ops = [np.array([[0.5, 1], [1, -0.25]]), np.array([[0, -1j], [1j, 0]])]
        s["H"] = [env.arr(ops[j], "complex") for j in range(J)]
        s["U"] = env.arr(np.array([[0.5, -0.75j], [1 + 0.5j, -1]]), "complex")
        if cfg.get("fixed"):
            # no drift, so that the first gradient is an exact number
            s["H0"] = env.arr(np.zeros((N, N)), "complex")
    else:
        s["H"] = [env.herm("H%d" % (j + 1), N) for j in range(J)]
    if cfg.get("fixed"):
        dt, t0 = 0.5, 0.25
    else:
        dt = env.pos("dt")
        t0 = env.real("t0", 0) if cfg["eps"] else env.real("t0", 0, 1)
    times = [t0 + k * dt for k in range(M)]
    s["dt"] = times[1] - times[0]
    a = dict(U=env.qobj(s["U"]), H0=env.qobj(s["H0"]), H_ops=[env.qobj(h) for h in s["H"]],
             R=R, times=times if cfg["start"] == "list" else env.arr(np.array(times), "real"),
             phase_sensitive=bool(cfg["ps"]), progress_bar=None)
    if cfg["eps"]:
        s["eps"] = a["eps"] = 0.75 if cfg.get("fixed") else env.real("eps")
    else:
        s["eps"] = 0.1 * (2 * math.pi) / times[-1]
    for p in ("alpha", "beta"):
        s[p] = 0
        if cfg[p]:
            s[p] = a[p] = env.pos(p)
    if cfg["interp"]:
        a["use_interp"] = True
    if cfg["start"] == "none":
        st = [[0.0] * M for j in range(J)]
    elif cfg["start"] == "scalar":
        v = [env.real("start_%d" % j) for j in range(J)]
        st = [[v[j]] * M for j in range(J)]
        a["u_start"] = v
    else:
        v = env.rarr("start", (J, M))
        st = [[v[j, m] for m in range(M)] for j in range(J)]
        a["u_start"] = [[v[j, m] for m in range(M)] for j in range(J)] \
            if cfg["start"] == "list" else v
    s["given"] = [list(x) for x in st]
    if cfg["limits"] in ("one", "three"):
        a["u_limits"] = [1.0] if cfg["limits"] == "one" else [-1.0, 0.0, 1.0]
        s["bad"] = True
    elif cfg["limits"]:
        s["lo"], s["hi"] = env.real("lo"), env.real("hi")
        env.assume(s["lo"] <= s["hi"])
        a["u_limits"] = [s["lo"], s["hi"]]
        if cfg["start"] == "scalar":
            st = [[env.clip(x[0], s["lo"], s["hi"])] * M for x in st]
        elif cfg["start"] != "none":
            st = [[env.clip(x, s["lo"], s["hi"]) for x in r] for r in st]
    s["start"] = st
    s["args"] = a
    return s


def unchanged(env, cfg, s):
    """the arguments are as they were"""
    a = s["args"]
    env.eq("target unchanged", a["U"], s["U"])
    env.eq("drift unchanged", a["H0"], s["H0"])
    for j in range(cfg["J"]):
        env.eq("control operator %d unchanged" % j, a["H_ops"][j], s["H"][j])
        if cfg["start"] in ("arr", "list"):
            for m in range(cfg["M"]):
                env.eq("start pulse argument %d,%d unchanged" % (j, m), a["u_start"][j][m],
                       s["given"][j][m])


def props(env, cfg, s, row):
    """propagators of the slots"""
    out = []
    for m in range(cfg["M"] - 1):
        h = s["H0"]
        for j in range(cfg["J"]):
            h = h + s["H"][j] * row[j][m]
        out.append(env.expm(h * (-1j) * s["dt"]))
    return out


def evolution(env, cfg, s, row):
    u = env.arr(np.eye(N), "complex")
    for p in props(env, cfg, s, row):
        u = p @ u
    return u


def overlap(env, s, u):
    return env.tr(env.dag(s["U"]) @ u) / N


def direction(env, cfg, s, row):
    """the first order derivative of the overlap (or of its square modulus) with respect to
    the amplitudes, minus the derivative of the penalties"""
    J, M, dt = cfg["J"], cfg["M"], s["dt"]
    ps = props(env, cfg, s, row)
    fwd = []
    f = env.arr(np.eye(N), "complex")
    for p in ps:
        f = p @ f
        fwd.append(f)
    conj = overlap(env, s, fwd[-1]).conjugate()
    out = [[None] * (M - 1) for j in range(J)]
    for m in range(M - 1):
        back = env.dag(s["U"])
        for p in reversed(ps[m + 1:]):
            back = back @ p
        for j in range(J):
            d = env.tr(back @ (s["H"][j] * (-1j) * dt) @ fwd[m]) / N
            if not cfg["ps"]:
                d = d * conj * 2
            d = d.real
            d = d - 2 * s["alpha"] * row[j][m] * dt - 2 * s["beta"] * m * m * row[j][m] * dt
            out[j][m] = d
    return out


def final(env, cfg, s, res, row):
    """the final evolution and the Hamiltonian belong to the last pulses"""
    J, M = cfg["J"], cfg["M"]
    a = s["args"]
    env.ensure("dims of the final evolution", res.U_f.dims == a["U"].dims)
    env.eq("final evolution is that of the last pulses", res.U_f, evolution(env, cfg, s, row))
    env.ensure("one term per control in H_t", len(res.H_t) == J + 1)
    env.eq("drift in H_t", res.H_t[0], s["H0"])
    for j in range(J):
        op, co = res.H_t[j + 1]
        env.eq("operator %d in H_t" % j, op, s["H"][j])
        if cfg["interp"]:
            co = [co(t, None) for t in a["times"]]
        env.ensure("number of coefficients in H_t", len(co) == M)
        for m in range(M):
            env.eq("coefficient %d,%d in H_t" % (j, m), co[m], row[j][m])
