"""C22 amplitude and parameter files"""
import os
import re
import shutil
import tempfile
import numpy as np
import configparser
import qutip_qtrl.loadparams as loadparams
import qutip_qtrl.optimconfig as optimconfig
import qutip_qtrl.termcond as termcond
import qutip_qtrl.optimizer as optimizer
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.errors as errors
from symq import core
from . import dynlib as dl

BOUNDS = ("1-3 slots, 1-2 controls; every numeric value in the files symbolic (text formatting and "
          "parsing of decimals themselves outside); every kind of attribute, every section")

SYM = {"GENERAL": None}

# numeric attributes of the objects of each section, as they may be given in a file
FIELDS = {
    "termconds": [["fid_err_targ", "fid_goal", "max_wall_time"],
                  ["min_gradient_norm", "max_iterations", "max_fid_func_calls"]],
    "optimizer": [["amp_lbound", "amp_ubound"], ["max_metric_corr#", "approx_grad?", "method$"],
                  ["amp_ubound", "nothing", "disp_conv_msg?", "amp_lbound"]],
    "crab": [["xtol", "ftol"], ["ftol", "record_iteration_steps?"]],
    "optimconfig": [["alg$", "init_pulse_type$", "dyn_type$"], ["optim_method$", "tslot_type$"]],
    "dynamics": [["evo_time", "num_tslots#"], ["num_tslots#", "evo_time"], ["tau[]"],
                 ["initial_ctrl_scaling", "initial_ctrl_offset", "fact_mat_round_prec"],
                 ["memory_optimization#", "unitarity_check_level#", "unitarity_tol"],
                 ["cache_prop_grad?", "nothing", "def_amps_fname$", "unitarity_tol"]],
    "pulsegen:RND": [["scaling", "offset", "lbound", "ubound"], ["lbound", "nothing", "offset"]],
    "pulsegen:LIN": [["start_val", "end_val", "scaling"], ["gradient", "start_val"]],
    "pulsegen:SINE": [["freq", "start_phase"], ["num_waves", "offset"], ["wavelen"]],
    "pulsegen:GAUSSIAN": [["mean", "variance"]],
    "pulsegen:GAUSSIAN_EDGE": [["decay_time"]],
    "pulsegen:RNDWAVES": [["num_comp_waves#", "min_wavelen", "max_wavelen"]],
    "pulsegen:RNDWALK1": [["max_d_amp"]],
    "pulsegen:RNDWALK2": [["max_d2_amp"]],
    "pulsegen:CRAB_FOURIER": [["num_coeffs#", "scaling"], ["randomize_coeffs?", "lbound"],
                              ["guess_pulse_action$", "fix_freqs?"]],
    "object": [["a_float", "an_int#", "a_bool?", "a_complex~", "a_str$"],
               ["a_list[]", "an_array[]", "none_float", "none_bool?", "none_str$"],
               ["an_array[#]", "a_float"],
               ["a_cmat[[]]", "a_qobj[[]]"], ["none_int#", "str_number$$", "str_word$!"]],
}


def configs(tier):
    out = []
    for nts in (1, 2) if tier == "quick" else (1, 2, 3):
        for nc in (1, 2):
            for times in ("default", "given", "exclude", "EXCLUDE", "unknown"):
                for amps in ("current", "given"):
                    for fn in ("given", "default"):
                        out.append(dict(kind="amps", nts=nts, nc=nc, times=times, amps=amps,
                                        fname=fn, dyn="GEN_MAT", prop="FRECHET", fid="TRACEDIFF",
                                        dtype="n", tau=1 if nts > 1 else 0))
    out.append(dict(kind="amps_wrong"))
    for sec, sets in FIELDS.items():
        for i in range(len(sets)):
            for extra in ("", "others") if tier == "quick" else ("", "others", "gap"):
                out.append(dict(kind="params", sec=sec, set=i, extra=extra))
    for o in ("nofile", "nosection", "missing"):
        out.append(dict(kind="params_wrong", what=o))
    return out


_TOK = re.compile(r"<sym(\d+)>")


def tok(text):
    m = _TOK.fullmatch(text.strip())
    return core.TOKENS[int(m.group(1))] if m else None


class TokParser(configparser.ConfigParser):
    """numbers of symbolic files are tokens"""

    def getfloat(self, section, option, **k):
        t = tok(self.get(section, option))
        return super().getfloat(section, option, **k) if t is None else t

    def getint(self, section, option, **k):
        t = tok(self.get(section, option))
        if t is not None:
            raise ValueError("invalid literal for int()")
        return super().getint(section, option, **k)


def tok_eval(text, *a):
    return eval(_TOK.sub(lambda m: "T[%s]" % m.group(1), text), {"T": core.TOKENS, "np": np})


def tok_complex(x):
    t = tok(x) if isinstance(x, str) else None
    return complex(x) if t is None else t


def harness(env, cfg):
    d = tempfile.mkdtemp(prefix="c22-")
    old = {}
    cwd = os.getcwd()
    try:
        os.chdir(d)
        if env.sym:
            core.TOKENS = []
            for n, v in (("ConfigParser", TokParser), ("eval", tok_eval),
                         ("complex", tok_complex)):
                old[n] = loadparams.__dict__.get(n)
                setattr(loadparams, n, v)
        dict(amps=amps, amps_wrong=amps_wrong, params=params,
             params_wrong=params_wrong)[cfg["kind"]](env, cfg, d)
    finally:
        os.chdir(cwd)
        core.TOKENS = None
        for n, v in old.items():
            if v is None:
                delattr(loadparams, n)
            else:
                setattr(loadparams, n, v)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- amplitudes

def value(t):
    v = tok(t)
    return float(t) if v is None else v


def table(path):
    return [[value(x) for x in line.split("\t")] for line in open(path).read().splitlines()
            if line.strip()]


def amps(env, cfg, d):
    s = dl.system(env, cfg)
    dy = dl.build(env, cfg, s)
    u = s.u
    kw = {}
    if cfg["amps"] == "given":
        u = env.rarr("a", (s.nts, s.nc))
        kw["amps"] = u
    want = []
    t = 0.0
    for k in range(s.nts):
        want.append(t)
        t = t + s.taus[k]
    if cfg["times"] == "given":
        want = env.rarr("t", (s.nts,))
        kw["times"] = want
    elif cfg["times"] != "default":
        kw["times"] = cfg["times"]
        if cfg["times"].lower() == "exclude":
            want = None
    before = u.copy()
    if cfg["fname"] == "given":
        f = os.path.join(d, "some.txt")
        dy.save_amps(f, **kw)
    else:
        f = os.path.join(d, "default.txt")
        dy.def_amps_fname = f
        dy.save_amps(**kw)
    env.ensure("the amplitude file is written", os.path.isfile(f))
    if not os.path.isfile(f):
        return
    r = table(f)
    env.ensure("one line per slot", len(r) == s.nts)
    for k in range(min(len(r), s.nts)):
        row = r[k]
        if want is not None:
            env.ensure("columns", len(row) == s.nc + 1)
            env.eq("start time of slot %d" % k, row[0], want[k], tol=1e-4)
            row = row[1:]
        env.ensure("amplitude columns", len(row) == s.nc)
        for j in range(min(len(row), s.nc)):
            env.eq("amplitude %d,%d in the file" % (k, j), row[j], u[k, j], tol=1e-4)
    for k in range(s.nts):
        for j in range(s.nc):
            env.eq("the amplitudes are not changed", (u if "amps" in kw else dy.ctrl_amps)[k, j],
                   before[k, j])


def amps_wrong(env, cfg, d):
    c = dict(nts=2, nc=1, dyn="GEN_MAT", prop="FRECHET", fid="TRACEDIFF", dtype="n")
    s = dl.system(env, c)
    dy = dl.build(env, c, s, init=False)
    env.raises("saving before the controls are set", errors.UsageError,
               lambda: dy.save_amps(os.path.join(d, "x.txt")))
    env.ensure("nothing written", not os.listdir(d))
    dy.initialize_controls(s.u.copy())
    # a file that cannot be written is reported in the log only
    dy.save_amps(os.path.join(d, "missing", "x.txt"))
    env.ensure("nothing written", not os.listdir(d))


# ---------------------------------------------------------------- parameters

class Obj:
    pass


def target(env, sec):
    """(object, section name, keyword of load_parameters)"""
    oc = optimconfig.OptimConfig()
    if sec == "termconds":
        return termcond.TerminationConditions(), sec, "term_conds"
    if sec == "optimconfig":
        return oc, sec, "config"
    c = dict(nts=2, nc=1, dyn="GEN_MAT", prop="FRECHET", fid="TRACEDIFF", dtype="n")
    s = dl.system(env, c)
    dy = dl.build(env, c, s, init=False)
    if sec == "dynamics":
        return dy, sec, "dynamics"
    if sec == "optimizer":
        return optimizer.OptimizerLBFGSB(oc, dy), sec, "optim"
    if sec == "crab":
        return optimizer.OptimizerCrabFmin(oc, dy), "optimizer", "optim"
    if sec.startswith("pulsegen"):
        return pulsegen.create_pulse_gen(sec.split(":")[1], dy), "pulsegen", "pulsegen"
    o = Obj()
    o.a_float, o.an_int, o.a_bool, o.a_complex, o.a_str = 1.5, 3, True, 1j, "x"
    o.a_list, o.an_array = [1, 2], np.zeros(2)
    o.a_cmat = np.zeros((2, 2), dtype=complex)
    o.a_qobj = env.qobj(env.arr(np.eye(2)))
    o.none_float = o.none_bool = o.none_str = o.none_int = None
    o.str_number, o.str_word = "x", "y"
    return o, "my section", "obj"


def entry(env, name):
    """(attribute, text in the file, expected value, how it is compared)"""
    a = name.rstrip("#?$~[]!")
    def num(i=""):
        x = env.real("f_%s%s" % (a, i), -100, 100)
        return x, (repr(float(x)) if not env.sym else format(x))
    if name == "nothing":
        return "there_is_no_such", "1.5", None, "none"
    if name.endswith("$$"):
        return a, "2024", "2024", "is"
    if name.endswith("$!"):
        return a, "on", "on", "is"
    if name.endswith("$"):
        return a, "Some text", "Some text", "is"
    if name.endswith("#"):
        return a, "3", 3, "int"
    if name.endswith("?"):
        return a, "no", False, "is"
    if name.endswith("~"):
        if env.sym:
            z = env.cplx("f_" + a)
            return a, format(z), z, "eq"
        z = complex(env.cplx("f_" + a))
        return a, repr(z), z, "eq"
    if name.endswith("[#]"):
        a = name[:-3]
        return a, "[1, 2]", [1, 2], "floats"
    if name.endswith("[[]]"):
        v = [[num("%d%d" % (i, j)) for j in range(2)] for i in range(2)]
        return a, "[" + ",".join("[" + ",".join(y[1] for y in x) + "]" for x in v) + "]", \
            [[y[0] for y in x] for x in v], "mat"
    if name.endswith("[]"):
        v = [num(i) for i in range(2)]
        if a == "tau":
            env.assume(v[0][0] > 0)
            env.assume(v[1][0] > 0)
        return a, "[" + ", ".join(y[1] for y in v) + "]", [y[0] for y in v], "list"
    x, t = num()
    if a == "evo_time":
        env.assume(x > 0)
    return a, t, x, "eq"


def params(env, cfg, d):
    o, sec, kw = target(env, cfg["sec"])
    names = FIELDS[cfg["sec"]][cfg["set"]]
    want = [entry(env, n) for n in names]
    f = os.path.join(d, "p.ini")
    lines = ["# parameters"]
    others = [s for s in ("optimconfig", "termconds", "dynamics", "optimizer", "pulsegen",
                          "my section") if s != sec]
    if cfg["extra"] == "others":
        # sections of other objects with the same names do not matter
        for s in others[:3]:
            lines += ["[%s]" % s] + ["%s = 77" % w[0] for w in want] + [""]
    lines += ["[%s]" % sec]
    for w in want:
        if cfg["extra"] == "gap":
            lines += ["", "; comment"]
        lines.append("%s = %s" % (w[0], w[1]))
    if cfg["extra"] == "others":
        for s in others[3:]:
            lines += ["", "[%s]" % s] + ["%s = 77" % w[0] for w in want]
    with open(f, "w") as h:
        h.write("\n".join(lines) + "\n")
    plain = {k: v for k, v in vars(o).items() if isinstance(v, (int, float, str, type(None)))}
    args = {kw: o}
    if kw == "obj":
        args["section"] = sec
    loadparams.load_parameters(f, **args)
    given = set(w[0] for w in want)
    for a, _, v, how in want:
        if how == "none":
            env.ensure("unknown attributes are not created", not hasattr(o, a))
            continue
        r = getattr(o, a)
        if how == "is":
            env.ensure("%s is %r" % (a, v), type(r) is type(v) and r == v)
        elif how == "int":
            env.ensure("%s is the whole number" % a, isinstance(r, (int, np.integer)) and r == v
                       and not isinstance(r, bool))
        elif how == "eq":
            if isinstance(r, str) or r is None:
                env.fail("%s is a number" % a)
            else:
                env.eq(a, r, v)
        elif how == "floats":
            env.ensure("%s keeps its type" % a, isinstance(r, np.ndarray) and (
                env.sym and not isinstance(r.flat[0], (int, np.integer))
                if r.dtype == object else r.dtype.kind == "f"))
            env.eq(a + " first", r[0], v[0])
            # values set later are not rounded
            x = env.real("later")
            r[0] = x
            env.eq(a + " later value", r[0], x)
        elif how == "list":
            env.ensure("%s has its length" % a, len(r) == len(v))
            for i in range(min(len(r), len(v))):
                env.eq("%s[%d]" % (a, i), r[i], v[i], tol=1e-4)
        else:
            m = env.mat(r)
            for i in range(2):
                for j in range(2):
                    env.eq("%s[%d,%d]" % (a, i, j), m[i, j], v[i][j])
    if cfg["sec"] != "dynamics":
        for k, v in plain.items():
            if k.lstrip("_") not in given and k != "log_level":
                env.ensure("%s is not touched" % k, getattr(o, k) is v or getattr(o, k) == v)
    else:
        # the time grid is that of the loaded settings
        w = {x[0]: x[2] for x in want}
        if "tau" in w:
            env.eq("evo_time", o.evo_time, w["tau"][0] + w["tau"][1], tol=1e-4)
            env.ensure("num_tslots", o.num_tslots == 2)
        elif "evo_time" in w:
            env.eq("tau", o.tau[0] * 3, w["evo_time"])
            env.ensure("number of durations", len(o.tau) == 3)


def params_wrong(env, cfg, d):
    o, sec, kw = target(env, "termconds")
    x = env.real("x")
    o.fid_goal = x
    if cfg["what"] == "nofile":
        env.raises("a file that does not exist", ValueError,
                   lambda: loadparams.load_parameters(os.path.join(d, "no.ini"), term_conds=o))
    else:
        with open(os.path.join(d, "p.ini"), "w") as h:
            h.write("[other]\nfid_goal = 0.5\n")
        if cfg["what"] == "nosection":
            env.raises("a general object without its section", ValueError,
                       lambda: loadparams.load_parameters(os.path.join(d, "p.ini"), obj=o))
        else:
            # a section that is not there changes nothing
            loadparams.load_parameters(os.path.join(d, "p.ini"), term_conds=o)
    env.eq("nothing is changed", o.fid_goal, x)
