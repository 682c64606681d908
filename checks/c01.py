"""C01 slot generators and propagators"""
import itertools
from . import dynlib as dl

BOUNDS = ("Matrices 2x2 and 3x3, symplectic 2x2 and 4x4 (two modes), 1-2 slots, 1-2 "
          "controls, all matrix entries, amplitudes and slot durations symbolic.")


def configs(tier):
    out = []
    props = {"GEN_MAT": ["FRECHET", "AUG_MAT", "APPROX"],
             "UNIT": ["DIAG", "FRECHET", "AUG_MAT", "APPROX"],
             "SYMPL": ["FRECHET", "AUG_MAT", "APPROX"]}
    tds = [(0, 0), (1, 0), (0, 1), (1, 1)]
    for dyn in ("GEN_MAT", "UNIT", "SYMPL"):
        for prop in props[dyn]:
            for dt in ("n", "q"):
                for mem in (0, 1):
                    for tdd, tdc in tds:
                        for ph in (["preop", "postop"] if dyn == "SYMPL" else [None]):
                            if tier == "quick" and (tdd != tdc) and (mem or dt == "q"):
                                continue
                            c = dict(dyn=dyn, prop=prop, dtype=dt, mem=mem, tdd=tdd, tdc=tdc,
                                     nts=2, nc=2, tau=1 - mem,
                                     fid="TDAPPROX" if prop == "APPROX" else "TRACEDIFF")
                            if ph:
                                c["phase"] = ph
                            out.append(c)
                            if dt == "n" and not mem:
                                # data type chosen by the code
                                out.append(dict(c, dtype=None))
    for gp in ("number", "matrix", "custom"):
        for ph in ("preop", "postop") if gp != "custom" else ("custom",):
            for prop in ("FRECHET", "AUG_MAT", "APPROX"):
                for dt in ("n", "q"):
                    for mem in (0, 1):
                        out.append(dict(dyn="GEN_MAT", prop=prop, dtype=dt, mem=mem, tdd=1,
                                        tdc=mem, nts=2, nc=2, tau=1, gphase=gp, phase=ph,
                                        fid="TDAPPROX" if prop == "APPROX" else "TRACEDIFF"))
    # three levels; two modes of a symplectic system
    for dyn, N in (("GEN_MAT", 3), ("UNIT", 3), ("SYMPL", 4)):
        for prop in props[dyn]:
            for dt in ("n", "q"):
                for mem in ((0, 1) if tier != "quick" else (0,)):
                    for ph in (["preop", "postop"] if dyn == "SYMPL" else [None]):
                        c = dict(dyn=dyn, prop=prop, dtype=dt, mem=mem, tdd=0, tdc=0, N=N,
                                 nts=1 if prop == "DIAG" else 2, nc=2, tau=1,
                                 fid="TDAPPROX" if prop == "APPROX" else "TRACEDIFF")
                        if ph:
                            c["phase"] = ph
                        out.append(c)
    return out


def harness(env, cfg):
    s = dl.system(env, cfg)
    d = dl.build(env, cfg, s)
    d.compute_evolution()
    sp = dl.Spec(env, cfg, s)
    for k in range(s.nts):
        env.eq("dyn_gen[%d]" % k, d.dyn_gen[k], sp.G[k])
    for k in range(s.nts):
        env.eq("prop[%d]" % k, d.prop[k], sp.P[k])
