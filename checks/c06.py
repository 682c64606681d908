"""C06 queries always reflect the latest amplitudes and configuration"""
import itertools
from . import dynlib as dl

BOUNDS = ("histories of up to 4 (quick) / 5 (thorough) operations out of: new amplitudes, one "
          "amplitude changed, the caller's array edited in place "
          "and passed again, the same amplitudes again, back to the first amplitudes, "
          "re-initialisation with new amplitudes / target / drift / durations / number of "
          "slots / number of controls / controls per slot / operator type / side of the "
          "phase / caching / fidelity measure / propagator method, switch of the phase option, clearing, and error / gradient / view queries; "
          "2x2 systems, 1-2 slots, 1 control, all entries symbolic")

WITNESSES = 2
QUICK = ["UFPF", "GUG", "FMF", "GMG", "FSF", "FUBF", "EUE", "EPE", "FIF", "GIG", "FTF", "GTG",
         "ETE", "FDF", "EDE", "FHF", "EHE", "FNF", "GNG", "ENE", "FCF", "GCG", "FPG", "GPF",
         "FGPFG", "EMF", "FUPG", "KUK", "GTF", "FXF", "FQF", "GQG", "EQE", "QFQE", "QGRG", "ERE",
         "FRQF", "FLF", "ELE"]
SW = ["EYE", "GYG", "EVE", "GVG", "GVUG", "EVVE", "EYNE", "EVNE"]
SWU = ["EWE", "GWG", "EZE", "GZG", "EZNE", "GWZG", "EWTE"]
PH = ["OF", "FOF", "GOG", "FGOG", "FOUF", "GOGF", "FOOF", "kOk"]


def configs(tier):
    out = []
    base = [("GEN_MAT", "FRECHET", "TRACEDIFF"), ("UNIT", "FRECHET", "UNIT"),
            ("UNIT", "DIAG", "UNIT"), ("GEN_MAT", "APPROX", "TDAPPROX"),
            ("SYMPL", "FRECHET", "TRACEDIFF"), ("UNIT", "DIAG", "TRACEDIFF")]
    short = ["UFPF", "GUG", "GMG", "EUE", "EPE", "FTF", "GIG", "ENE", "EDE", "FXF", "EQE", "FQF",
             "ERE"]
    for i, (dyn, prop, fid) in enumerate(base):
        hist = list(QUICK if i < 2 else short)
        if fid == "UNIT":
            hist += PH if i < 2 else ["FOF", "GOG"]
        hist += SW + (["EAE", "GAG", "EYAE"] if dyn == "SYMPL" else [])
        hist += SWU if dyn == "UNIT" else []
        if tier == "thorough":
            ops = "UPMSBITDHNCFGE" + ("O" if fid == "UNIT" else "")
            if i < 2:
                hist += ["F" + a + q + b + r for a in "UPMITDHN" for b in "UPMBSITDHNC"
                         for q in "FG" for r in "FG"]
                hist += [q + a + b + r for q in "FG" for a in ops for b in ops
                         for r in "FGE"]
            else:
                hist += QUICK
            hist = sorted(set(hist))
        for h in hist:
            for dt in ("n", "q"):
                for cache in (1, 0):
                    if tier == "quick" and (dt == "q" or not cache) and i >= 2:
                        continue
                    if dt == "q" and not cache:
                        continue
                    nts = 1 if prop == "DIAG" or "N" in h or fid == "UNIT" and "G" in h else 2
                    if "Q" in h and "G" in h:
                        nts = 1
                    out.append(dict(hist=h, dyn=dyn, prop=prop, fid=fid, dtype=dt,
                                    cache_prop_grad=cache, nts=nts, nc=1, tau=0, init=0,
                                    cache_phased_dyn_gen=cache))
    return out


class Hist:
    def __init__(self, env, cfg):
        self.env, self.cfg = env, dict(cfg)
        self.s = dl.system(env, self.cfg)
        self.n = 0
        if cfg["fid"] == "UNIT":
            self.cfg["phopt"] = "PSU"
        self.d = dl.build(env, self.cfg, self.s, init=False)
        self.arr = self.s.u.copy()          # the caller's array
        self.first = self.s.u.copy()
        self.d.initialize_controls(self.arr)
        self.cur = self.s.u.copy()

    def fresh(self, nm, shape=None, old=None):
        """new amplitudes, each different from the one it replaces"""
        self.n += 1
        r = self.env.rarr("%s%d" % (nm, self.n), shape or (self.s.nts, self.s.nc))
        if old is not None:
            for i in range(r.shape[0]):
                for j in range(r.shape[1]):
                    self.env.assume(r[i, j] != old[i, j])
        return r

    def set(self, u):
        self.arr = u
        self.cur = u.copy()
        self.d.update_ctrl_amps(u)

    def reinit(self, u):
        self.arr = u
        self.cur = u.copy()
        self.first = u.copy()
        dl.configure(self.env, self.cfg, self.d, self.s)
        if getattr(self, "relist", None) is not None:
            self.d.ctrl_dyn_gen, self.relist = self.relist, None
        self.d.initialize_controls(u)

    def op(self, o):
        env, d, s = self.env, self.d, self.s
        if o == "U":
            self.set(self.fresh("v", old=self.cur))
        elif o == "P":
            u = self.cur.copy()
            u[s.nts - 1, s.nc - 1] = self.fresh("p", (1, 1), u[s.nts - 1:, s.nc - 1:])[0, 0]
            self.set(u)
        elif o == "M":
            self.arr[0, 0] = self.fresh("m", (1, 1), self.arr[:1, :1])[0, 0]
            self.set(self.arr)
        elif o == "S":
            self.set(self.cur.copy())
        elif o == "B":
            self.set(self.first.copy())
        elif o == "X":
            # the caller scribbles over its array after passing it
            u = self.fresh("x", old=self.cur)
            self.set(u)
            u[0, 0] = self.fresh("y", (1, 1))[0, 0]
        elif o == "I":
            self.reinit(self.fresh("i"))
        elif o in "TDHN":
            t = dl.system(env, dict(self.cfg, nts=3 - s.nts if o == "N" else s.nts),
                          tag="z%d" % self.n)
            self.n += 1
            if o == "T":
                s.target = t.target
            elif o == "D":
                s.drift, s.ctrl, s.initial = t.drift, t.ctrl, t.initial
            else:
                s.T = t.T
                s.nts = t.nts
                s.taus = t.taus
                s.drift = [s.drift[0]] * s.nts
                s.ctrl = [s.ctrl[0]] * s.nts
            if o == "T":
                self.reinit(self.cur.copy())
            else:
                self.reinit(self.fresh("w"))
        elif o in "QRL":
            # Q: other number of controls, R: controls per slot / the same for all slots,
            # L: Q, with the list of controls edited in place
            self.n += 1
            if o in "QL":
                s.nc = 3 - s.nc
            else:
                self.cfg["tdc"] = not self.cfg.get("tdc")
            t = dl.system(env, dict(self.cfg, nts=s.nts, nc=s.nc), tag="z%d" % self.n)
            s.ctrl = t.ctrl
            if o == "L":
                old = d.ctrl_dyn_gen
                old[:] = [env.qobj(m) for m in s.ctrl[0]]
                self.relist = old
            self.reinit(self.fresh("w"))
        elif o in "YAVWZ":
            # another operator type / side of the phase / caching / fidelity measure /
            # propagator method, then re-initialisation
            c = self.cfg
            if o == "Y":
                c["dtype"] = "q" if c["dtype"] == "n" else "n"
                d.oper_dtype = env.Qobj if c["dtype"] == "q" else dl.np.ndarray
            elif o == "A":
                c["phase"] = "preop" if c.get("phase", "postop") == "postop" else "postop"
                d.phase_application = c["phase"]
            elif o == "V":
                for f in ("cache_phased_dyn_gen", "cache_prop_grad",
                          "cache_dyn_gen_eigenvectors_adj"):
                    c[f] = 1 - c.get(f, 1)
                    setattr(d, f, bool(c[f]))
            elif o == "W":
                c["fid"] = "UNIT" if c["fid"] == "TRACEDIFF" else "TRACEDIFF"
                d.fid_computer = getattr(dl.fidcomp, dl.FIDS[c["fid"]])(d)
                if c["fid"] == "UNIT":
                    c["phopt"] = "PSU"
                    d.fid_computer.phase_option = "PSU"
            else:
                c["prop"] = "DIAG" if c["prop"] == "FRECHET" else "FRECHET"
                d.prop_computer = getattr(dl.propcomp, dl.PROPS[c["prop"]])(d)
            self.reinit(self.fresh("w"))
        elif o == "C":
            d.clear()
            self.set(self.cur.copy())
        elif o == "O":
            self.cfg["phopt"] = "SU" if self.cfg["phopt"] == "PSU" else "PSU"
            d.fid_computer.phase_option = self.cfg["phopt"]
        else:
            self.query(o)

    def spec(self):
        return self.mkspec(self.cur)

    def mkspec(self, u):
        sp = dl.Spec(self.env, self.cfg, self.s, u)
        for k in range(len(sp.eig)):
            # degenerate spectra are covered by C04
            lam = sp.eig[k][0]
            self.env.assume((lam[1] - lam[0]) * self.s.taus[k] > 1e-9)
        return sp

    def query(self, o):
        env, d = self.env, self.d
        sp = self.spec()
        s = self.s
        tag = "after %s: " % self.done
        if o == "F":
            env.eq(tag + "fid_err", d.fid_computer.get_fid_err(), sp.fid_err())
        elif o in "Kk":
            if self.cfg["fid"] == "UNIT":
                f = sp.overlap()
                nrm = sp.norm().real
                env.nonzero(nrm)
                env.eq(tag + "fidelity", d.fid_computer.get_fidelity(),
                       (env.abs(f) if self.cfg["phopt"] == "PSU" else f.real) / nrm)
            else:
                d.compute_evolution()
                env.eq(tag + "full_evo", d.full_evo, sp.fwd(s.nts))
        elif o == "G":
            g = d.fid_computer.get_fid_err_gradient()
            env.ensure(tag + "gradient shape", g.shape == (s.nts, s.nc))
            tot = 0
            for k in range(s.nts):
                for j in range(s.nc):
                    if self.cfg["fid"] == "TDAPPROX":
                        want = self.fd(sp, k, j)
                    else:
                        want = sp.grad(k, j)
                    env.eq(tag + "grad[%d,%d]" % (k, j), g[k, j], want)
                    tot = tot + g[k, j] * g[k, j]
            gn = d.fid_computer.grad_norm
            env.eq(tag + "grad_norm", gn * gn, tot)
        elif o == "E":
            d.compute_evolution()
            env.eq(tag + "ctrl_amps", d.ctrl_amps, self.cur)
            for k in range(s.nts):
                env.eq(tag + "dyn_gen[%d]" % k, d.dyn_gen[k], sp.G[k])
                env.eq(tag + "prop[%d]" % k, d.prop[k], sp.P[k])
            for k in range(s.nts + 1):
                env.eq(tag + "fwd_evo[%d]" % k, d.fwd_evo[k], sp.fwd(k))
            env.ensure(tag + "lengths", len(d.fwd_evo) == s.nts + 1
                       and len(d.prop) == s.nts and len(d.dyn_gen) == s.nts)
            if d.fid_computer.uses_onwd_evo:
                env.ensure(tag + "onwd length", len(d.onwd_evo) == s.nts)
                for k in range(s.nts):
                    env.eq(tag + "onwd_evo[%d]" % k, d.onwd_evo[k], sp.onwd(k))
            if d.fid_computer.uses_onto_evo:
                env.eq(tag + "onto_evo_target", d.onto_evo_target, sp.onto_target())
                for k in range(s.nts + 1):
                    env.eq(tag + "onto_evo[%d]" % k, d.onto_evo[k], sp.onto(k))
            if self.cfg["cache_prop_grad"] and self.cfg["fid"] != "TDAPPROX":
                for k in range(s.nts):
                    env.eq(tag + "prop_grad[%d,0]" % k, d.prop_grad[k, 0], sp.dP(k, 0))

    def fd(self, sp, k, j):
        eps = self.d.fid_computer.epsilon
        u2 = self.cur.copy()
        u2[k, j] = u2[k, j] + eps
        return (self.mkspec(u2).fid_err() - sp.fid_err()) / eps

    def run(self, h):
        self.done = ""
        for o in h:
            self.done += o
            self.op(o)


def harness(env, cfg):
    Hist(env, cfg).run(cfg["hist"])
