"""C21 deprecated names do what the names replacing them do"""
import warnings
import numpy as np
from . import dynlib as dl

BOUNDS = ("2x2 systems, 2 slots, 1-2 controls; all matrix entries, amplitudes, durations and the "
          "step symbolic; queried after the first evolution and after an update")


def configs(tier):
    out = []
    for dyn, prop, fid in (("GEN_MAT", "FRECHET", "TRACEDIFF"), ("GEN_MAT", "APPROX", "TDAPPROX"),
                           ("GEN_MAT", "AUG_MAT", "TRACEDIFF"), ("UNIT", "FRECHET", "UNIT"),
                           ("UNIT", "DIAG", "UNIT"), ("UNIT", "APPROX", "TDAPPROX"),
                           ("SYMPL", "FRECHET", "TRACEDIFF"), ("SYMPL", "APPROX", "TDAPPROX")):
        for dt in ("n", "q"):
            for mem in (0, 1):
                for td in (0, 1):
                    if tier == "quick" and mem and td and dt == "q":
                        continue
                    nts = 1 if prop == "DIAG" else 2
                    out.append(dict(dyn=dyn, prop=prop, fid=fid, dtype=dt, mem=mem, tdd=td, tdc=td,
                                    nts=nts, nc=1 if prop == "DIAG" else 2, tau=td))
    return out


def old(env, name, fn):
    """the value of a deprecated name, which must say that it is deprecated"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn()
    env.ensure(name + " announces its deprecation",
               any(issubclass(x.category, FutureWarning) for x in w))
    return r


def harness(env, cfg):
    s = dl.system(env, cfg)
    d = dl.build(env, cfg, s)
    pc, fc, ts = d.prop_computer, d.fid_computer, d.tslot_computer
    env.ensure("get_num_ctrls", old(env, "get_num_ctrls", d.get_num_ctrls) == s.nc)
    env.ensure("get_timeslot_for_fidelity_calc",
               old(env, "get_timeslot_for_fidelity_calc",
                   ts.get_timeslot_for_fidelity_calc) == s.nts)
    d.compute_evolution()
    if cfg["prop"] != "DIAG":
        query(env, cfg, s, d, s.u)
    s2 = env.rarr("w", (s.nts, s.nc))
    d.update_ctrl_amps(s2)
    k = s.nts - 1
    # the generator of a slot can be asked for before the evolution
    sp = dl.Spec(env, cfg, s, s2)
    env.eq("combine_dyn_gen", env.mat(old(env, "combine_dyn_gen", lambda: d.combine_dyn_gen(k))),
           sp.G[k])
    d.compute_evolution()
    query(env, cfg, s, d, s2)
    for a, b in (("uses_evo_t2end", "uses_onwd_evo"), ("uses_evo_t2targ", "uses_onto_evo")):
        env.ensure(a, old(env, a, lambda: getattr(fc, a)) == getattr(fc, b))
        for v in (False, True):
            old(env, a + " set", lambda: setattr(fc, a, v))
            env.ensure(a + " sets " + b, getattr(fc, b) is v)
            env.ensure(a + " reads back", old(env, a, lambda: getattr(fc, a)) is v)
    if cfg["fid"] == "UNIT":
        # the error with the option set in the old way is that of the new way
        for o in ("SU", "PSU"):
            old(env, "set_phase_option", lambda: fc.set_phase_option(o))
            env.ensure("set_phase_option", fc.phase_option == o)


def query(env, cfg, s, d, u):
    pc = d.prop_computer
    sp = dl.Spec(env, cfg, s, u)
    k = s.nts - 1
    j = s.nc - 1
    env.eq("get_dyn_gen", env.mat(old(env, "get_dyn_gen", lambda: d.get_dyn_gen(k))),
           dl.phase(env, cfg, sp.G[k], s) if cfg["prop"] != "DIAG" or d.dyn_gen_phase is not None
           else sp.G[k])
    env.eq("get_ctrl_dyn_gen", env.mat(old(env, "get_ctrl_dyn_gen",
                                           lambda: d.get_ctrl_dyn_gen(j))),
           dl.phase(env, cfg, s.ctrl[0][j], s)
           if cfg["prop"] != "DIAG" or d.dyn_gen_phase is not None else s.ctrl[0][j])
    env.eq("evo_init2t", env.mat(old(env, "evo_init2t", lambda: d.evo_init2t)[k]), sp.fwd(k))
    if d.fid_computer.uses_onwd_evo:
        env.eq("evo_t2end", env.mat(old(env, "evo_t2end", lambda: d.evo_t2end)[0]), sp.onwd(0))
    if d.fid_computer.uses_onto_evo:
        env.eq("evo_t2targ", env.mat(old(env, "evo_t2targ", lambda: d.evo_t2targ)[0]),
               sp.onto(0))
        env.eq("get_owd_evo_target", old(env, "get_owd_evo_target", d.get_owd_evo_target),
               sp.onto_target())
    env.eq("compute_propagator",
           env.mat(old(env, "compute_propagator", lambda: pc.compute_propagator(k))), sp.P[k])
    if cfg["prop"] == "APPROX":
        e = env.pos("eps", 0, 1)
        u2 = u.copy()
        u2[k, j] = u2[k, j] + e
        env.eq("compute_diff_prop",
               env.mat(old(env, "compute_diff_prop", lambda: pc.compute_diff_prop(k, j, e))),
               dl.Spec(env, cfg, s, u2).P[k])
    else:
        # (with diagonalisation, what the new name returns; that it is right is C04)
        g = env.mat(pc._compute_prop_grad(k, j, compute_prop=False)) if cfg["prop"] == "DIAG" \
            else sp.dP(k, j)
        r = old(env, "compute_prop_grad", lambda: pc.compute_prop_grad(k, j))
        env.eq("compute_prop_grad: propagator", env.mat(r[0]), sp.P[k])
        env.eq("compute_prop_grad: gradient", env.mat(r[1]), g)
        env.eq("compute_prop_grad alone",
               env.mat(old(env, "compute_prop_grad",
                           lambda: pc.compute_prop_grad(k, j, compute_prop=False))), g)
        env.eq("prop_grad view", d.prop_grad[k][j] if d.cache_prop_grad else
               env.mat(d._get_prop_grad(k, j)), g)
