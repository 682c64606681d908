"""C20 dumps record exactly what happened in the run, and the files say what was recorded"""
import copy
import os
import re
import shutil
import tempfile
import numpy as np
import qutip_qtrl.dump as dm
import qutip_qtrl.stats as st
from symq import core
from . import optlib as ol
from . import dynlib as dl
from .c19 import Count

BOUNDS = ("2x2 systems, 1-2 slots, 1-2 controls, scripts of up to 5 (quick) / 8 (thorough) "
          "minimiser calls; generators, targets, amplitudes, durations, errors, gradients, "
          "clock readings and the parameter values the minimiser tries symbolic; all levels and "
          "single-quantity CUSTOM selections")
OUTSIDE = ("the layout and wording of the files apart from the numbers in them; scipy's "
           "minimisers (an arbitrary script of calls); failures of the file system")
OPTS = ["Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrab", "OptimizerCrabFmin"]
WITNESSES = 3
OFLAGS = ["fid_err", "grad_norm", "grad"]
DFLAGS = ["amps", "dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo"]
ATTR = dict(amps="ctrl_amps")
BASE = [("GEN_MAT", "FRECHET", "TRACEDIFF", 2, 2), ("UNIT", "FRECHET", "UNIT", 2, 1),
        ("UNIT", "DIAG", "UNIT", 1, 1), ("GEN_MAT", "APPROX", "TDAPPROX", 1, 2),
        ("UNIT", "FRECHET", "TRACEDIFF", 2, 1), ("GEN_MAT", "AUG_MAT", "TRACEDIFF", 1, 1)]


def configs(tier):
    out = []
    scr = ["fgc", "fsc", "fgfgc", "gcfc", "fcfcf"]
    if tier == "thorough":
        scr += ["", "fgcmgcfs", "ggsgfc", "pfpgcn", "fcfcfcf1"]
    for i, o in enumerate(OPTS):
        for j, sc in enumerate(scr):
            if "g" in sc and "Crab" in o:
                continue
            for lv in ["SUMMARY", "FULL"] + ["CUSTOM:" + f for f in ["-"] + OFLAGS]:
                if tier == "quick" and lv.startswith("C") and (i + j) % 3:
                    continue
                out.append(dict(kind="optim", opt=o, script=sc, level=lv, stats=(i + j) % 2,
                                files=int(lv != "SUMMARY" or j % 2), nts=2, nc=1 + i % 2,
                                end=["", "goal", "wall"][(i + j) % 3]))
    for b, (dyn, prop, fid, nts, nc) in enumerate(BASE):
        for j, sc in enumerate(scr):
            if fid == "TDAPPROX" or prop == "DIAG" and sc == "fgfgc" and tier == "quick":
                sc = sc.replace("g", "")
            for lv in ["SUMMARY", "FULL"] + ["CUSTOM:" + f for f in DFLAGS]:
                if tier == "quick" and (j > 2 or lv.startswith("C") and j != b % 3):
                    continue
                for dt in "nq":
                    if dt == "q" and (prop in ("AUG_MAT",) or tier == "quick" and j):
                        continue
                    out.append(dict(kind="dyn", opt="Optimizer", dyn=dyn, prop=prop, fid=fid,
                                    nts=nts, nc=nc, script=sc, level=lv, dtype=dt,
                                    stats=(b + j) % 2, files=int(lv != "SUMMARY" or j % 2),
                                    mem=int(b == 4)))
    for who in ("optim", "dyn"):
        out.append(dict(kind="levels", who=who))
        out.append(dict(kind="paths", who=who))
        out.append(dict(kind="again", who=who))
    return out


# ------------------------------------------------------------------ reading files back
NUM = re.compile(r"<sym\d+>|\(?[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"
                 r"(?:[-+](?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)j\))?|None")


def value(t):
    if t.startswith("<sym"):
        return core.TOKENS[int(t[4:-1])]
    if t == "None":
        return None
    if t.startswith("("):
        return complex(t)
    return float(t)


def rows(path):
    """the lines of numbers, in order"""
    out = []
    with open(path) as f:
        for ln in f.read().splitlines():
            cells = ln.replace(",", " ").replace("+-", "-").split()
            if cells and all(NUM.fullmatch(c) for c in cells):
                out.append([value(c) for c in cells])
    return out


def eq_rows(env, label, got, want, tol=1e-6):
    env.ensure(label + ": %d lines (got %d)" % (len(want), len(got)), len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        b = list(b)
        env.ensure(label + ": numbers in line %d" % i, len(a) == len(b))
        for x, y in zip(a, b):
            eq_val(env, label, x, y, tol)


def eq_val(env, label, x, y, tol=1e-6):
    if x is None or y is None:
        env.ensure(label, x is None and y is None, "%r for %r" % (x, y))
    elif not isinstance(y, core.S) and isinstance(y, (float, np.floating)) and y != y:
        env.ensure(label, not isinstance(x, core.S) and x != x)
    else:
        env.eq(label, x, y, tol)


def mat_rows(env, ms):
    out = []
    for m in ms:
        m = env.mat(m)
        m = m.reshape(1, -1).T if np.ndim(m) == 1 else m
        out += [[m[i, j] for j in range(m.shape[1])] for i in range(m.shape[0])]
    return out


# ------------------------------------------------------------------ harnesses
def harness(env, cfg):
    d = tempfile.mkdtemp(prefix="c20-")
    if env.sym:
        core.TOKENS = []
    try:
        dict(optim=run_optim, dyn=run_dyn, levels=levels, paths=paths,
             again=again)[cfg["kind"]](env, cfg, d)
    finally:
        core.TOKENS = None
        shutil.rmtree(d, ignore_errors=True)


def select(host, level, flags):
    """dump level of cfg; returns the quantities selected"""
    if level.startswith("CUSTOM"):
        host.dumping = "CUSTOM"
        f = level.split(":")[1]
        if f != "-":
            setattr(host.dump, "dump_" + f, True)
        return [f] if f != "-" else []
    host.dumping = level
    return list(flags) if level == "FULL" else []


def open_tc(cfg, tc):
    tc.fid_err_targ = -np.inf
    tc.min_gradient_norm = -np.inf
    tc.max_wall_time = np.inf
    if cfg.get("end") == "goal":
        tc.fid_err_targ = np.inf
    elif cfg.get("end") == "wall":
        tc.max_wall_time = -1.0


def run_optim(env, cfg, tmp):
    s, c, d, opt, tc = ol.setup(env, cfg)
    if cfg["stats"]:
        opt.stats = d.stats = st.Stats()
    sel = select(opt, cfg["level"], OFLAGS)
    if cfg["files"]:
        opt.dump_to_file = True
        opt.dump_dir = os.path.join(tmp, "sub", "o")
    open_tc(cfg, tc)
    rec = record_optim(env, cfg, opt, d, cfg["script"])
    dump = opt.dump
    env.ensure("level reported", opt.dumping == (
        cfg["level"] if ":" not in cfg["level"] else "SUMMARY" if not sel else "CUSTOM"))
    check_optim(env, dump, rec, sel)
    if cfg["files"]:
        optim_files(env, dump, dump.dump_dir, rec, sel, "written in the run")
        env.ensure("directory", dump.dump_dir == os.path.join(tmp, "sub", "o"))
    else:
        env.ensure("no files", not os.listdir(tmp))
    # explicit output
    dump.dump_dir = os.path.join(tmp, "w")
    dump.fname_base = "again"
    dump.writeout()
    optim_files(env, dump, os.path.join(tmp, "w"), rec, sel, "written out", "again")
    p = os.path.join(tmp, "all")
    dump.writeout(p)
    optim_all(env, p, rec, sel)
    with open(p + "2", "wb") as f:
        dump.writeout(f)
        env.ensure("the stream stays open", not f.closed)
    optim_all(env, p + "2", rec, sel)
    check_optim(env, dump, rec, sel)
    dump.clear()
    env.ensure("cleared", not (dump.iter_summary or dump.fid_err_log or dump.grad_norm_log
                               or dump.grad_log))


def record_optim(env, cfg, opt, d, script, nx=0):
    """run the script; what the dump should contain"""
    m = ol.Mini(env, cfg, opt, script)
    m.nx = nx
    clock = ol.Clock(env)
    rec = dict(err=[], gn=[], grad=[], it=[])
    last = dict(err=None, gn=None, nf=None, ng=None, t0=None)
    fid = d.fid_computer

    def hook(when, op, x, v, exc):
        if op == "c":
            if when == "before":
                last["reads"] = len(clock.reads)
                return
            rec["it"].append(dict(iter_num=m.ncb, fid_func_call_num=last["nf"],
                                  grad_func_call_num=last["ng"], fid_err=last["err"],
                                  grad_norm=last["gn"],
                                  wall_time=clock.t[last["reads"]] - opt.wall_time_optimize_start))
        elif when == "after":
            if op == "f":
                e = fid.err_of(d.ctrl_amps)
                rec["err"].append(e)
                last.update(err=e, nf=m.nf)
            else:
                g, n = fid.grad_of(d.ctrl_amps)
                rec["grad"].append(g.copy())
                rec["gn"].append(n)
                last.update(gn=n, ng=m.ng)
    m.hook = hook
    with m.patched(clock):
        opt.run_optimization()
    return rec


def check_optim(env, dump, rec, sel):
    env.ensure("number of iterations in the summary", len(dump.iter_summary) == len(rec["it"]))
    for i, (a, b) in enumerate(zip(dump.iter_summary, rec["it"])):
        env.ensure("summary %d index" % i, a.idx == i)
        for k, v in b.items():
            eq_val(env, "summary %d %s" % (i, k), getattr(a, k), v)
    for f, log, want in (("fid_err", dump.fid_err_log, rec["err"]),
                         ("grad_norm", dump.grad_norm_log, rec["gn"]),
                         ("grad", dump.grad_log, rec["grad"])):
        want = want if f in sel else []
        env.ensure("entries of the %s log" % f, len(log) == len(want))
        for i, (a, b) in enumerate(zip(log, want)):
            env.eq("%s log entry %d" % (f, i), a, b)


def sum_rows(rec):
    return [[i, r["iter_num"], r["fid_func_call_num"], r["grad_func_call_num"], r["fid_err"],
             r["grad_norm"], r["wall_time"]] for i, r in enumerate(rec["it"])]


def optim_files(env, dump, where, rec, sel, label, base="optimdump"):
    fs = sorted(os.listdir(where))
    want = []
    if rec["it"] or base == "again":
        want.append("%s-summary.txt" % base)
    if rec["it"]:
        eq_rows(env, label + ": summary", rows(os.path.join(where, want[0])), sum_rows(rec), 0.1)
    for f, k in (("fid_err", "err"), ("grad_norm", "gn")):
        if f in sel and (rec[k] or base == "again"):
            want.append("%s-%s_log.txt" % (base, f))
            if rec[k]:
                eq_rows(env, label + ": " + f, rows(os.path.join(where, want[-1])),
                        [[v] for v in rec[k]])
    if "grad" in sel:
        for i, g in enumerate(rec["grad"]):
            want.append("%s-fid_err_gradients%d.txt" % (base, i + 1))
            eq_rows(env, label + ": gradient", rows(os.path.join(where, want[-1])),
                    mat_rows(env, [g]))
    env.ensure(label + ": files %s, found %s" % (want, fs), fs == sorted(want))


def optim_all(env, p, rec, sel):
    want = sum_rows(rec)
    n = len(want)
    if "fid_err" in sel:
        want += [[v] for v in rec["err"]]
    if "grad_norm" in sel:
        want += [[v] for v in rec["gn"]]
    if "grad" in sel:
        want += mat_rows(env, rec["grad"])
    got = rows(p)
    eq_rows(env, "single file: summary", got[:n], want[:n], 0.1)
    eq_rows(env, "single file: logs", got[n:], want[n:])


# ------------------------------------------------------------------ dynamics
def snap(env, cfg, d, nc):
    """copies of the operators of the present evolution, as the user reads them"""
    def cp(l):
        return None if l is None else [env.mat(x).copy() for x in l]
    n = d.num_tslots
    r = dict(amps=d.ctrl_amps.copy(), dyn_gen=cp(d.dyn_gen), prop=cp(d.prop),
             fwd_evo=cp(d.fwd_evo), onwd_evo=None, onto_evo=None, prop_grad=None)
    if d.fid_computer.uses_onwd_evo:
        r["onwd_evo"] = cp(d.onwd_evo)
    if d.fid_computer.uses_onto_evo:
        r["onto_evo"] = cp(d.onto_evo)
    if d.prop_computer.grad_exact and d.prop_grad is not None:
        r["prop_grad"] = [[env.mat(d.prop_grad[k, j]).copy() for j in range(nc)]
                          for k in range(n)]
    return r


def run_dyn(env, cfg, tmp):
    s, c, d, opt, tc = ol.setup(env, cfg, fake=False)
    if cfg["stats"]:
        opt.stats = d.stats = st.Stats()
    sel = select(d, cfg["level"], DFLAGS)
    d.dump_to_file = bool(cfg["files"])
    d.dump_dir = os.path.join(tmp, "d")
    d.initialize_controls(s.u.copy())
    open_tc(cfg, tc)
    rec, sums = [], []
    cnt = Count(cfg, d)
    m = ol.Mini(env, cfg, opt, cfg["script"])
    chg = dict(n=0, s=0)

    def note():
        if cnt.recomp > len(rec):
            rec.append(snap(env, cfg, d, s.nc))
            own = cfg["stats"]
            it, nf, ng = (m.ncb, m.nf, m.ng) if sums else (0, 0, 0)
            sums.append(dict(iter_num=it if own else None,
                             fid_func_call_num=nf if own else None,
                             grad_func_call_num=ng if own else None,
                             num_amps_changed=chg["n"], num_timeslots_changed=chg["s"]))

    def hook(when, op, x, v, exc):
        if op not in "fg":
            return
        if when == "before":
            if m.nf + m.ng == 1:
                note()                  # the evaluation of the initial amplitudes
            n0, s0 = cnt.changes, cnt.slots
            cnt.update(ol.amps_of(cfg, s, x))
            chg.update(n=cnt.changes - n0, s=cnt.slots - s0)
            cnt.call(op)
        else:
            note()
    m.hook = hook
    clock = ol.Clock(env)
    cnt.need_err()
    with m.patched(clock):
        opt.run_optimization()
    cnt.update(ol.amps_of(cfg, s, m.ret))
    cnt.need_err()
    env.ensure("test set-up: no evolution after the last call", cnt.recomp == len(rec))
    dump = d.dump
    env.ensure("level reported", d.dumping == cfg["level"].split(":")[0])
    total = clock.reads[-1] - clock.reads[0]
    check_dyn(env, cfg, dump, rec, sums, sel, total)
    if cfg["files"]:
        dyn_files(env, dump, os.path.join(tmp, "d"), rec, sel, "written in the run", "dyndump")
    else:
        env.ensure("no files", not os.listdir(os.path.join(tmp, "d")))
    dump.dump_dir = os.path.join(tmp, "w")
    dump.fname_base = "again"
    dump.writeout()
    dyn_files(env, dump, os.path.join(tmp, "w"), rec, sel, "written out", "again")
    p = os.path.join(tmp, "all")
    dump.writeout(p)
    dyn_all(env, p, dump, rec, sel)
    with open(p + "2", "wb") as f:
        dump.writeout(f)
        env.ensure("the stream stays open", not f.closed)
    dyn_all(env, p + "2", dump, rec, sel)
    if sel:
        dump.evo_dumps[0].writeout(p + "3")
        eq_rows(env, "one item", rows(p + "3"), item_rows(env, rec[0], sel), 1e-4)
    check_dyn(env, cfg, dump, rec, sums, sel, total)
    dump.clear()
    env.ensure("cleared", not (dump.evo_dumps or dump.evo_summary))


def check_dyn(env, cfg, dump, rec, sums, sel, total):
    env.ensure("one item per evolution", len(dump.evo_dumps) == (len(rec) if sel else 0))
    for i, (it, r) in enumerate(zip(dump.evo_dumps, rec)):
        env.ensure("item %d index" % i, it.idx == i)
        for f in DFLAGS:
            v = getattr(it, ATTR.get(f, f))
            if f not in sel or r[f] is None:
                env.ensure("item %d: no %s" % (i, f), v is None)
                continue
            env.ensure("item %d: %s recorded" % (i, f), v is not None)
            if f == "amps":
                env.eq("item %d: amplitudes" % i, v, r[f])
                continue
            env.ensure("item %d: number of %s" % (i, f), len(v) == len(r[f]))
            for k in range(len(r[f])):
                for a, b in zip(v[k], r[f][k]) if f == "prop_grad" else [(v[k], r[f][k])]:
                    env.eq("item %d: %s %d" % (i, f, k), a, b)
    env.ensure("one summary per evolution", len(dump.evo_summary) == len(rec))
    for i, (q, w) in enumerate(zip(dump.evo_summary, sums)):
        env.ensure("summary %d index" % i, q.idx == i)
        env.ensure("summary %d item" % i, q.evo_dump_idx == (i if sel else None))
        for k, v in w.items():
            if i or not k.startswith("num_"):
                eq_val(env, "summary %d %s" % (i, k), getattr(q, k), v)
        ts = [getattr(q, "wall_time_%s_compute" % k) for k in
              ("dyn_gen", "prop", "fwd_prop", "onwd_prop")]
        for t in ts:
            env.ensure("times are not negative", le(env, 0, t))
        env.ensure("times within the run", le(env, sum(ts[1:], ts[0]), total))


def le(env, a, b):
    if env.sym:
        return a <= b
    return float(a) <= float(b) + 1e-9


def part_rows(env, r, f):
    if f == "amps":
        return mat_rows(env, [r[f]])
    if f == "prop_grad":
        return mat_rows(env, [x for row in r[f] for x in row])
    return mat_rows(env, r[f])


def item_rows(env, r, sel):
    out = []
    for f in DFLAGS:
        if f in sel and r[f] is not None:
            out += part_rows(env, r, f)
    return out


def dsum_rows(dump):
    names = ["idx", "evo_dump_idx", "iter_num", "fid_func_call_num", "grad_func_call_num",
             "num_amps_changed", "num_timeslots_changed", "wall_time_dyn_gen_compute",
             "wall_time_prop_compute", "wall_time_fwd_prop_compute",
             "wall_time_onwd_prop_compute"]
    return [[getattr(q, n) for n in names] for q in dump.evo_summary]


def dyn_files(env, dump, where, rec, sel, label, base):
    fs = sorted(os.listdir(where))
    want = ["%s-summary.txt" % base]
    eq_rows(env, label + ": summary", rows(os.path.join(where, want[0])), dsum_rows(dump), 0.02)
    for i, r in enumerate(rec):
        for f in DFLAGS:
            if f in sel and r[f] is not None:
                want.append("%s-evo%d-%s.txt" % (base, i, ATTR.get(f, f)))
                eq_rows(env, label + ": evolution %d %s" % (i, f),
                        rows(os.path.join(where, want[-1])), part_rows(env, r, f), 1e-4)
    env.ensure(label + ": files %s, found %s" % (want, fs), fs == sorted(want))


def dyn_all(env, p, dump, rec, sel):
    want = dsum_rows(dump)
    n = len(want)
    if sel:
        for r in rec:
            want += item_rows(env, r, sel)
    got = rows(p)
    eq_rows(env, "single file: summary", got[:n], want[:n], 0.02)
    eq_rows(env, "single file: operators", got[n:], want[n:], 1e-4)


# ------------------------------------------------------------------ configuration
def hosts(env, cfg):
    c = dict(opt="Optimizer", dyn="UNIT", prop="FRECHET", fid="UNIT", nts=1, nc=1)
    s, _, d, opt, tc = ol.setup(env, c, fake=cfg["who"] == "optim")
    open_tc({}, tc)
    host, flags = (opt, OFLAGS) if cfg["who"] == "optim" else (d, DFLAGS)
    return c, s, d, opt, host, flags


def levels(env, cfg, tmp):
    c, s, d, opt, host, flags = hosts(env, cfg)

    def state():
        return [f for f in flags if getattr(host.dump, "dump_" + f)]
    env.ensure("nothing is dumped at first", host.dump is None and host.dumping == "NONE")
    for seq in ("S F S", "C", "F C F", "S C", "C+ C", "C+ S C", "C+ F C+ C", "N F N C", "f s c n",
                "C+ N C"):
        host.dumping = None
        custom, want = False, []
        for step in seq.split():
            lv = dict(S="SUMMARY", F="FULL", C="CUSTOM", N="NONE")[step[0].upper()]
            host.dumping = lv if step[0].isupper() else lv.lower()
            if lv == "NONE":
                custom = False
                env.ensure("no dump", host.dump is None and host.dumping == "NONE")
                continue
            if lv == "CUSTOM":
                want = want if custom else []
                custom = True
            else:
                want = list(flags) if lv == "FULL" else []
                custom = False
            env.ensure("%s: selected after %s" % (seq, step), state() == want)
            env.ensure("%s: summary kept after %s" % (seq, step), host.dump.dump_summary)
            if "+" in step:
                setattr(host.dump, "dump_" + flags[0], True)
                want = [flags[0]]
            env.ensure("%s: level after %s" % (seq, step), host.dumping == (
                "SUMMARY" if not want else "FULL" if want == flags else "CUSTOM"))
    for bad, exc in (("other", ValueError), (3, TypeError)):
        env.raises("level %r" % (bad,), exc, lambda b=bad: setattr(host, "dumping", b))
    if cfg["who"] == "dyn":
        # the fidelity computer is chosen after the dumping level
        import qutip_qtrl.fidcomp as fc
        d.dumping = "FULL"
        d.fid_computer = fc.FidCompTraceDiff(d)
        env.ensure("FULL after another fidelity computer", d.dumping == "FULL")
        d.initialize_controls(s.u.copy())
        d.fid_computer.get_fid_err()
        it = d.dump.evo_dumps[-1]
        env.ensure("its evolution is dumped", it.onwd_evo is not None)
        env.eq("its evolution", it.onwd_evo[0], d.onwd_evo[0])


def paths(env, cfg, tmp):
    c, s, d, opt, host, flags = hosts(env, cfg)
    host.dump_dir = os.path.join(tmp, "a", "b")
    env.ensure("dumping is switched on with the directory", host.dumping == "SUMMARY")
    env.ensure("directory is created", os.path.isdir(os.path.join(tmp, "a", "b")))
    env.ensure("directory", host.dump_dir == os.path.join(tmp, "a", "b"))
    dump = host.dump
    base = "optimdump" if cfg["who"] == "optim" else "dyndump"
    env.ensure("summary file", dump.summary_file == os.path.join(tmp, "a", "b",
                                                                 base + "-summary.txt"))
    host.dump_dir = os.path.join(tmp, "c")
    env.ensure("summary file follows", dump.summary_file == os.path.join(
        tmp, "c", base + "-summary.txt"))
    dump.fname_base = "x"
    env.ensure("summary file follows the base", dump.summary_file == os.path.join(
        tmp, "c", "x-summary.txt"))
    if cfg["who"] == "optim":
        env.ensure("log files follow", (dump.fid_err_file, dump.grad_norm_file) == (
            os.path.join(tmp, "c", "x-fid_err_log.txt"),
            os.path.join(tmp, "c", "x-grad_norm_log.txt")))
        host.dump_dir = os.path.join(tmp, "a")
        env.ensure("log file follows the directory",
                   dump.fid_err_file == os.path.join(tmp, "a", "x-fid_err_log.txt"))
        host.dump_dir = os.path.join(tmp, "c")
    dump.summary_file = "rel.txt"
    env.ensure("relative summary file", dump.summary_file == os.path.join(tmp, "c", "rel.txt"))
    dump.summary_file = os.path.join(tmp, "abs.txt")
    env.ensure("absolute summary file", dump.summary_file == os.path.join(tmp, "abs.txt"))
    dump.fname_base = "y"
    host.dump_dir = os.path.join(tmp, "e")
    env.ensure("a given summary file is kept", dump.summary_file == os.path.join(tmp, "abs.txt"))
    env.raises("file name base", ValueError, lambda: setattr(dump, "fname_base", 3))
    env.raises("summary file", ValueError, lambda: setattr(dump, "summary_file", 3))
    # a directory that cannot be created: the run goes on without files
    p = os.path.join(tmp, "file")
    open(p, "w").close()
    dump.summary_file = os.path.join(tmp, "never.txt")
    dump.write_to_file = True
    dump.dump_dir = p
    env.ensure("no output without a directory", not dump.write_to_file)


def again(env, cfg, tmp):
    """a second run is appended to the same dump and the same files"""
    c = dict(opt="Optimizer", dyn="UNIT", prop="FRECHET", fid="UNIT", nts=1, nc=1)
    s, _, d, opt, tc = ol.setup(env, c, fake=cfg["who"] == "optim")
    open_tc({}, tc)
    host = opt if cfg["who"] == "optim" else d
    host.dumping = "FULL"
    host.dump_to_file = True
    host.dump_dir = tmp
    if cfg["who"] == "optim":
        rec = record_optim(env, c, opt, d, "fgc")
        rec2 = record_optim(env, c, opt, d, "fc", nx=20)
        for k in rec:
            rec[k] = rec[k] + rec2[k]
        check_optim(env, opt.dump, rec, OFLAGS)
        optim_files(env, opt.dump, tmp, rec, OFLAGS, "both runs")
        opt.dump.clear()
        rec = record_optim(env, c, opt, d, "fgc", nx=40)
        check_optim(env, opt.dump, rec, OFLAGS)
        eq_rows(env, "files start again", rows(os.path.join(tmp, "optimdump-summary.txt")),
                sum_rows(rec), 0.1)
        eq_rows(env, "files start again", rows(os.path.join(tmp, "optimdump-fid_err_log.txt")),
                [[e] for e in rec["err"]])
        return
    with ol.Mini(env, c, opt, "").patched(ol.Clock(env)):
        evolutions(env, c, d, s, tmp)


def evolutions(env, c, d, s, tmp):
    d.initialize_controls(s.u.copy())
    rec = []
    for k in range(3):
        if k:
            u = env.rarr("v%d" % k, (1, 1))
            for r in rec:
                env.assume(u[0, 0] != r["amps"][0, 0])
            d.update_ctrl_amps(u)
        d.fid_computer.get_fid_err()
        rec.append(snap(env, c, d, 1))
        keep = copy.copy(d.dump.evo_dumps)
    for i, r in enumerate(rec):
        for f in DFLAGS:
            v = getattr(keep[i], ATTR.get(f, f))
            if r[f] is None:
                env.ensure("no " + f, v is None)
            else:
                for a, b in zip(np.ravel(v) if f == "amps" else [x for w in v for x in (
                        w if f == "prop_grad" else [w])],
                        np.ravel(r[f]) if f == "amps" else [x for w in r[f] for x in (
                            w if f == "prop_grad" else [w])]):
                    env.eq("%s of evolution %d" % (f, i), a, b)
    dyn_files(env, d.dump, tmp, rec, DFLAGS, "three evolutions", "dyndump")
