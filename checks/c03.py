"""C03 fidelity error"""
from . import dynlib as dl

BOUNDS = ("2x2 and 3x3 systems (operator and state transfer), 1-2 slots, 1 control; arbitrary "
          "complex initial/target entries, amplitudes and durations.")


def configs(tier):
    out = []
    for dyn, prop in (("GEN_MAT", "FRECHET"), ("UNIT", "DIAG"), ("UNIT", "FRECHET"),
                      ("SYMPL", "FRECHET"), ("GEN_MAT", "APPROX")):
        for fid, ph in (("TRACEDIFF", None), ("UNIT", "PSU"), ("UNIT", "SU"),
                        ("TDAPPROX", None)):
            if fid == "UNIT" and dyn != "UNIT":
                continue
            if (prop == "APPROX") != (fid == "TDAPPROX"):
                continue
            for dt in ("n", "q"):
                for state in (0, 1):
                    for nts in (1, 2):
                        if dyn == "SYMPL" and state:
                            continue
                        c = dict(dyn=dyn, prop=prop, fid=fid, dtype=dt, state=state,
                                 nts=nts, nc=1, tau=0)
                        if ph:
                            c["phopt"] = ph
                        out.append(c)
                        if fid != "UNIT" and nts == 1:
                            out.append(dict(c, scale=1))
                        if prop != "DIAG" and dyn != "SYMPL":
                            # larger systems
                            out.append(dict(c, N=3, tau=1))
    return out


def harness(env, cfg):
    s = dl.system(env, cfg)
    d = dl.build(env, cfg, s, init=False)
    sp = dl.Spec(env, cfg, s)
    if cfg.get("scale"):
        sc = env.pos("scale")
        d.fid_computer.scale_factor = sc
        sp.scale = lambda: sc
    d.initialize_controls(s.u.copy())
    want = sp.fid_err()
    env.eq("fid_err", d.fid_computer.get_fid_err(), want)
    env.eq("fid_err again", d.fid_computer.get_fid_err(), want)
