"""C02 time-ordered composition of the slot propagators"""
from . import dynlib as dl

BOUNDS = ("2x2 systems (3x3, 2x2 times 2x2 with 2 slots), 1-3 slots (4 in thorough), 1 control, operator and state-vector "
          "initial/target; all matrix entries, amplitudes and durations symbolic.")


def configs(tier):
    out = []
    for dyn, prop in (("GEN_MAT", "FRECHET"), ("UNIT", "DIAG"), ("UNIT", "FRECHET"),
                      ("SYMPL", "FRECHET"), ("UNIT", "APPROX"), ("GEN_MAT", "APPROX")):
        for fid in ("TRACEDIFF", "UNIT", "TDAPPROX"):
            if fid == "UNIT" and dyn == "SYMPL":
                continue
            if (prop == "APPROX") != (fid == "TDAPPROX") and fid != "UNIT":
                continue
            for dt in ("n", "q"):
                for state in (0, 1):
                    for nts in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                        if dyn == "SYMPL" and state:
                            continue
                        if prop == "DIAG" and nts > 3:
                            continue
                        out.append(dict(dyn=dyn, prop=prop, fid=fid, dtype=dt, state=state,
                                        nts=nts, nc=1, tau=0))
                        if prop == "FRECHET" and dyn != "SYMPL" and nts == 2:
                            out.append(dict(out[-1], N=3, tau=1))
                            if dyn == "UNIT" or fid != "UNIT":
                                # composite system
                                out.append(dict(out[-1], N=4, dims=[2, 2]))
    return out


def harness(env, cfg):
    s = dl.system(env, cfg)
    dl.Spec(env, cfg, s, run=False).onto_target()       # the target is invertible
    d = dl.build(env, cfg, s)
    if cfg["fid"] != "UNIT" or cfg["dtype"] == "n":
        d.compute_evolution()
    else:
        d.fid_computer.get_fid_err()
    sp = dl.Spec(env, cfg, s)
    n = s.nts
    fw = d.fwd_evo
    env.ensure("number of forward evolutions", len(fw) == n + 1)
    for k in range(n + 1):
        env.eq("fwd_evo[%d]" % k, fw[k], sp.fwd(k))
        env.ensure("fwd dims", fw[k].dims == d.initial.dims)
    env.eq("full_evo", d.full_evo, sp.fwd(n))
    if d.fid_computer.uses_onwd_evo:
        ow = d.onwd_evo
        env.ensure("number of onward evolutions", len(ow) == n)
        for k in range(n):
            env.eq("onwd_evo[%d]" % k, ow[k], sp.onwd(k))
    if d.fid_computer.uses_onto_evo:
        ot = d.onto_evo
        env.ensure("number of onto evolutions", len(ot) == n + 1)
        for k in range(n + 1):
            env.eq("onto_evo[%d]" % k, ot[k], sp.onto(k))
    env.eq("onto_evo_target", d.onto_evo_target, sp.onto_target())
