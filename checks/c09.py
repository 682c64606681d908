"""C09 time grid"""
import itertools
import numpy as np

BOUNDS = ("histories of up to 3 (quick) / 5 (thorough) settings of slot count, evolution time "
          "and slot durations with reads in between; 1-4 slots; all times symbolic")
OUTSIDE = ("single-precision rounding of automatically generated durations (they are float32): "
           "arithmetic is exact here, replays compare to 1e-6")
OPS = ["n1", "n3", "evo", "tau2", "tau4", "read", "init"]


def configs(tier):
    out = []
    L = 3 if tier == "quick" else 5
    pre = ["", "n", "e", "ne", "t"]
    for p in pre:
        for a in itertools.product(OPS, repeat=2):
            out.append(dict(params=p, ops="-".join(a), more=L - 2))
    return out


class Model:
    def __init__(self):
        self.num, self.evo, self.tau, self.init = None, None, None, False

    def ensure(self):
        import qutip_qtrl.dynamics as dy
        if self.num is None:
            self.num = dy.DEF_NUM_TSLOTS
        if self.evo is None:
            self.evo = dy.DEF_EVO_TIME
        if self.tau is None:
            self.tau = [self.evo / self.num] * self.num
        self.init = True

    def set_num(self, n):
        self.num = n
        if self.init:
            self.tau = None
            self.ensure()

    def set_evo(self, t):
        self.evo = t
        if self.init:
            self.tau = None
            self.ensure()

    def set_tau(self, tau):
        self.tau = list(tau)
        self.num = len(tau)
        self.evo = sum(tau[1:], tau[0])
        self.init = True


def apply(env, d, m, op, tag):
    if op[0] == "n":
        d.num_tslots = int(op[1:])
        m.set_num(int(op[1:]))
    elif op == "evo":
        t = env.pos("T" + tag)
        d.evo_time = t
        m.set_evo(t)
    elif op.startswith("tau"):
        n = int(op[3:])
        tau = [env.pos("t%s_%d" % (tag, i)) for i in range(n)]
        d.tau = env.arr(np.array(tau, dtype=object), "real") if n == 2 else list(tau)
        m.set_tau(tau)
    elif op == "read":
        m.ensure()
        compare(env, d, m)
    elif op == "init":
        d.init_timeslots()
        m.ensure()


def compare(env, d, m):
    env.ensure("number of slots", d.num_tslots == m.num)
    env.eq("total time", d.evo_time, m.evo)
    env.ensure("one duration per slot", len(d.tau) == m.num)
    for k in range(m.num):
        env.eq("duration %d" % k, d.tau[k], m.tau[k])
    env.ensure("one time per boundary", len(d.time) == m.num + 1)
    t = 0
    env.eq("time 0", d.time[0], 0)
    for k in range(m.num):
        t = m.tau[k] + t
        env.eq("time %d" % (k + 1), d.time[k + 1], t)
    env.eq("last time is the total", d.time[-1], m.evo)
    a = d.get_amp_times()
    env.ensure("one amplitude time per slot", len(a) == m.num)
    for k in range(m.num):
        env.eq("amplitude time %d" % k, a[k], d.time[k])


def harness(env, cfg):
    import qutip_qtrl.dynamics as dy
    import qutip_qtrl.optimconfig as oc
    more = cfg["more"]
    for tail in itertools.product(OPS, repeat=more):
        if more > 1 and tail[0] == tail[-1]:
            continue
        m = Model()
        params = {}
        if "n" in cfg["params"]:
            params["num_tslots"] = m.num = 2
        if "e" in cfg["params"]:
            params["evo_time"] = m.evo = env.pos("Tp")
        if "t" in cfg["params"]:
            tp = [env.pos("tp_%d" % i) for i in range(3)]
            params["tau"] = tp
            m.set_tau(tp)
        d = dy.DynamicsGenMat(oc.OptimConfig(), params=params or None)
        ops = cfg["ops"].split("-") + list(tail)
        for i, op in enumerate(ops):
            apply(env, d, m, op, str(i))
        apply(env, d, m, "read", "end")
