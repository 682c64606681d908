"""C07 representation and caching options never change the results"""
from . import dynlib as dl

BOUNDS = ("2x2 systems, 1-2 slots, 1-2 controls, all entries, amplitudes, durations symbolic; "
          "each option compared with the dense ndarray, fully cached computation")
WITNESSES = 3

VARS = [dict(dtype="q"), dict(dtype=None), dict(mem=1, dtype=None), dict(mem=1, dtype="n"),
        dict(mem=1, dtype="q"), dict(cache_prop_grad=0), dict(cache_phased_dyn_gen=0),
        dict(cache_dyn_gen_eigenvectors_adj=0), dict(dtype="q", cache_prop_grad=0),
        dict(dtype="q", cache_phased_dyn_gen=0), dict(stats=1), dict(log=1), dict(ucl=2), dict(ucl=1, dtype="q"), dict(dump=1),
        dict(tdd=1), dict(tdc=1), dict(tau=1), dict(dtype="q", tdc=1, tdd=1),
        dict(dtype="q", cache_dyn_gen_eigenvectors_adj=0)]


def configs(tier):
    out = []
    base = [("GEN_MAT", "FRECHET", "TRACEDIFF"), ("UNIT", "FRECHET", "UNIT"),
            ("UNIT", "DIAG", "UNIT"), ("GEN_MAT", "APPROX", "TDAPPROX"),
            ("SYMPL", "FRECHET", "TRACEDIFF"), ("UNIT", "DIAG", "TRACEDIFF"),
            ("GEN_MAT", "AUG_MAT", "TRACEDIFF"), ("UNIT", "FRECHET", "TRACEDIFF")]
    for dyn, prop, fid in base:
        for vi, v in enumerate(VARS):
            for state in (0, 1):
                if dyn == "SYMPL" and state:
                    continue
                if "cache_dyn_gen_eigenvectors_adj" in v and prop != "DIAG":
                    continue
                nts = 1 if fid == "UNIT" or prop == "DIAG" else 2
                nc = 2 if nts == 1 and prop != "DIAG" else 1
                if tier == "thorough":
                    nts = 2
                c = dict(var=vi, dyn=dyn, prop=prop, fid=fid, state=state, nts=nts, nc=nc,
                         init=state)
                if fid == "UNIT":
                    for ph in ("PSU", "SU"):
                        if tier == "quick" and ph == "PSU" and (state or vi > 8):
                            continue
                        out.append(dict(c, phopt=ph))
                else:
                    out.append(c)
    return out


def same(s, env, cfg, v):
    """the same system expressed through per-slot containers / explicit durations"""
    t = dl.Sys()
    t.__dict__.update(s.__dict__)
    if v.get("tau"):
        t.tau = list(s.taus)
    return t


def run(env, cfg, s, v):
    c = dict(cfg, dtype="n", mem=0)
    c.update(v)
    d = dl.make(env, c)
    if v.get("stats"):
        import qutip_qtrl.stats as st
        d.stats = st.Stats()
    if v.get("dump"):
        d.dumping = "FULL"
    if v.get("ucl"):
        d.unitarity_check_level = v["ucl"]
    if v.get("log"):
        import qutip_qtrl.logging_utils as lu
        d.log_level = lu.DEBUG_INTENSE
    dl.configure(env, c, d, same(s, env, c, v))
    d.initialize_controls(s.u.copy())
    e = d.fid_computer.get_fid_err()
    g = d.fid_computer.get_fid_err_gradient()
    d.compute_evolution()
    r = e, g, d.full_evo, d.prop, d.fwd_evo
    if v.get("log"):
        d.log_level = 50
    return r


def harness(env, cfg):
    s = dl.system(env, dict(cfg, tau=0))
    if cfg["prop"] == "DIAG":
        sp = dl.Spec(env, cfg, s)
        for k in range(s.nts):
            lam = sp.eig[k][0]
            env.assume((lam[1] - lam[0]) * s.taus[k] > 1e-9)
    v = VARS[cfg["var"]]
    a = run(env, cfg, s, {})
    b = run(env, cfg, s, v)
    env.eq("fidelity error", b[0], a[0])
    env.ensure("gradient shape", b[1].shape == (s.nts, s.nc))
    for k in range(s.nts):
        for j in range(s.nc):
            env.eq("gradient[%d,%d]" % (k, j), b[1][k, j], a[1][k, j])
    env.eq("full_evo", b[2], a[2])
    for k in range(s.nts):
        env.eq("prop[%d]" % k, b[3][k], a[3][k])
        env.eq("fwd_evo[%d]" % k, b[4][k], a[4][k])
