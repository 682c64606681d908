"""Check runner: explores every configuration of a check, replays witnesses and
counterexamples on the real code, writes evidence."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(os.environ.get("QTRL_REPO", "/repo"), "src"))
sys.dont_write_bytecode = True

import logging                                                   # noqa: E402
import warnings                                                  # noqa: E402
warnings.simplefilter("ignore")
import qutip_qtrl                                                # noqa: E402
import qutip_qtrl.pulseoptim                                     # noqa: E402
import qutip_qtrl.grape                                          # noqa: E402
import qutip_qtrl.cy_grape                                       # noqa: E402
import qutip_qtrl.loadparams                                     # noqa: E402
import qutip_qtrl.dump                                           # noqa: E402
import qutip_qtrl.io                                             # noqa: E402
import qutip_qtrl.symplectic                                     # noqa: E402
import qutip_qtrl.logging_utils                                  # noqa: E402
from symq import core, stubs, engine, harness                    # noqa: E402
from symq.harness import SymEnv, ConcEnv, Found, Skip, conc_random  # noqa: E402
from symq.core import SymUnsupported                             # noqa: E402

logging.disable(logging.CRITICAL)
COV = set()


def _start_cov():
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "symq")
    except ValueError:
        return
    def cb(code, off):
        fn = code.co_filename
        i = fn.rfind("qutip_qtrl/")
        if i >= 0:
            COV.add(fn[i + 11:-3] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)


def cfgname(cfg):
    return ",".join("%s=%s" % (k, cfg[k]) for k in cfg)


def jsonable(inp):
    out = {}
    for k, v in (inp or {}).items():
        out[k] = [v.real, v.imag] if isinstance(v, complex) else v
    return out


def unjson(inp):
    return {k: complex(*v) if isinstance(v, list) else v for k, v in (inp or {}).items()}


def conc_run(check, cfg, inputs, seed=0):
    """returns ('ok'|'viol'|'raise'|'skip', detail, used)"""
    env = ConcEnv(inputs, seed)
    old = core.ENGINE
    core.ENGINE = None
    try:
        with conc_random(env), stubs.patched(
                extra=check.extras(env, cfg) if hasattr(check, "extras") else (),
                symbolic=False):
            check.harness(env, cfg)
        return "ok", "", env.used
    except Skip:
        return "skip", "", env.used
    except Found as f:
        return "viol", "%s %s" % (f.label, f.note), env.used
    except Exception as e:                                       # noqa
        tb = traceback.extract_tb(e.__traceback__)
        if not any("qutip_qtrl" in x.filename for x in tb) and \
                isinstance(e, (AttributeError, NameError, ImportError)) and \
                "NoneType" not in str(e):
            # the harness does not fit the code (say, a private name is gone)
            return "misfit", "%s: %s" % (type(e).__name__, e), env.used
        where = ["%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb
                 if "qutip_qtrl" in x.filename][-1:]
        return "raise", "%s: %s at %s" % (type(e).__name__, e, where), env.used
    finally:
        core.ENGINE = old


def confirm(check, cfg, inputs, seed):
    """try to reproduce on the unpatched code"""
    tries = []
    if inputs is not None:
        tries.append((inputs, 0))
    tries += [({}, seed * 101 + i) for i in range(1, 7)]
    for inp, sd in tries:
        k, d, used = conc_run(check, cfg, inp, sd)
        if k in ("viol", "raise"):
            return k, d, used
    return None


def explore_cfg(check, cfg, seed, deadline):
    """runs in a child process; returns a result dict"""
    t0 = time.time()
    core.EXPAND_LIMIT = getattr(check, "EXPAND", 0)
    eng = engine.Engine(seed=seed, max_paths=getattr(check, "MAX_PATHS", 600),
                        branch_nl=getattr(check, "BRANCH_NL", True))
    res = {"cfg": cfg, "violation": None, "undecided": [], "degraded": [], "paths": 0,
           "validated": 0, "unstable": 0, "witness_skipped": 0, "obl_paths": 0}
    done = [0]

    def body():
        env = SymEnv(eng)
        with stubs.patched(extra=check.extras(env, cfg) if hasattr(check, "extras")
                           else ()):
            try:
                check.harness(env, cfg)
            finally:
                done[0] = env.nobl
        return env.nobl

    def viol(kind, detail, inputs, label):
        res["violation"] = {"cfg": cfg, "label": label, "detail": detail, "kind": kind,
                            "inputs": jsonable(inputs)}
    nwit = 0
    try:
        for r, exc in eng.explore(body):
            if time.time() > deadline:
                res["undecided"].append("time budget")
                break
            if exc == "vacuous":
                continue
            if exc is None:
                res["obl_paths"] += 1 if r else 0
                if nwit < getattr(check, "WITNESSES", 6):
                    nwit += 1
                    w = witness(eng)
                    if w is None:
                        res["witness_skipped"] += 1
                        continue
                    k, d, used = conc_run(check, cfg, w, seed)
                    if k == "ok":
                        res["validated"] += 1
                    elif k == "skip":
                        res["witness_skipped"] += 1
                    elif k == "misfit":
                        res["degraded"].append("replay: " + d)
                    else:
                        c = confirm(check, cfg, None, seed)
                        if c is not None:
                            viol(c[0], c[1], c[2], "witness replay: " + d)
                            break
                        res["unstable"] += 1
                continue
            if isinstance(exc, Found):
                c = confirm(check, cfg, exc.inputs, seed)
                if c is not None:
                    viol(c[0], c[1], c[2], exc.label)
                    break
                res["undecided"].append("%s %s (%s)" % (
                    exc.label, exc.note,
                    "counterexample not reproduced" if exc.decided else "solver unknown"))
                continue
            # any other exception: in the code under test or in the engine
            w = witness(eng)
            if isinstance(exc, engine.DivZero):
                res["divzero"] = res.get("divzero", 0) + 1
                if w is not None:
                    k, d, used = conc_run(check, cfg, w, seed)
                    if k in ("viol", "raise"):
                        viol(k, d, used, str(exc))
                        break
                continue
            c = confirm(check, cfg, w, seed)
            d = "%s: %s" % (type(exc).__name__, exc)
            if os.environ.get("SYMQ_DEBUG"):
                traceback.print_exception(exc)
            if c is not None:
                viol(c[0], c[1], c[2], d)
                break
            res["degraded"].append(d[:300])
    except engine.PathLimit as e:
        res["undecided"].append(str(e))
    st = eng.stats
    res["stats"] = dict(st.__dict__)
    res["cov"] = sorted(COV)
    res["calls"] = dict(stubs.CALLS)
    res["wall"] = time.time() - t0
    return res


def witness(eng):
    """inputs satisfying the current path condition, as generic as possible"""
    import random
    import z3
    from fractions import Fraction
    core.ENGINE = eng
    used = set()
    for _, a in eng.cons:
        used |= set(a)
    rnd = random.Random(eng.seed + 77)
    pins = []
    fixed = {}
    for n, x in eng.inputs.items():
        if x.atoms() & used:
            continue
        q = Fraction(rnd.randint(-30, 30) or 11, 21)
        p = Fraction(rnd.randint(-30, 30) or 7, 21)
        fixed[n] = float(q) if x.is_real() else complex(float(q), float(p))
    # prefer generic values for constrained inputs too
    soft = []
    for n, x in eng.inputs.items():
        if n in fixed:
            continue
        re, im = core.to_z3(x)
        q = Fraction(rnd.randint(5, 40), 29)
        soft.append(re == core.rv(q if rnd.random() < 0.5 else -q))
    r, m = "x", None
    k = len(soft)
    while True:
        r, m = eng._check([], 1500, True, pins=soft[:k], t1=700)
        if r == z3.sat or k == 0:
            break
        k = k // 2
    if m is None:
        return None
    out = {n: eng.eval_num(m, x) for n, x in eng.inputs.items()}
    out.update(fixed)
    return out


def child(check, cfg, seed, budget, path):
    try:
        _start_cov()
        res = explore_cfg(check, cfg, seed, time.time() + budget)
    except BaseException as e:                                   # noqa
        res = {"cfg": cfg, "error": "".join(traceback.format_exception(e))[-3000:]}
    with open(path, "w") as f:
        json.dump(res, f, default=str)
    os._exit(0)


def known_list(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                out.append(ln.split(" ", 2)[2])
    return out


def run_check(pid, tier, seed, only=None):
    import tempfile
    import shutil
    mod = importlib.import_module("checks." + pid.lower())
    cfgs = mod.configs(tier)
    if only:
        cfgs = [c for c in cfgs if only in cfgname(c)]
    budget = getattr(mod, "BUDGET", {}).get(tier, 110 if tier == "quick" else 1500)
    hard = budget + 30
    total = getattr(mod, "TOTAL", {}).get(tier, 600 if tier == "quick" else 10800)
    tmp = tempfile.mkdtemp(prefix="symq_")
    t0 = time.time()
    running = {}

    def term(*a):
        for p in running:
            _kill(p)
        os._exit(3)
    signal.signal(signal.SIGTERM, term)
    results = []
    todo = list(enumerate(cfgs))
    todo.reverse()
    ncpu = int(os.environ.get("SYMQ_JOBS", "8"))
    stop = False
    while todo or running:
        while todo and len(running) < ncpu and not stop:
            i, cfg = todo.pop()
            path = os.path.join(tmp, "%d.json" % i)
            sys.stdout.flush()
            pid_ = os.fork()
            if pid_ == 0:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                os.setpgid(0, 0)
                wd = os.path.join(tmp, "w%d" % i)
                os.makedirs(wd)
                os.chdir(wd)
                child(mod, cfg, seed, budget, path)
            running[pid_] = (i, cfg, path, time.time())
        if not running:
            break
        time.sleep(0.01)
        late = time.time() - t0 > total
        if late and todo:
            for _, cfg in todo:
                results.append({"cfg": cfg, "late": True})
            todo = []
        for p in list(running):
            i, cfg, path, ts = running[p]
            w, _ = os.waitpid(p, os.WNOHANG)
            dead = w == p
            if not dead and (time.time() - ts > hard or stop or late):
                _kill(p)
                os.waitpid(p, 0)
                dead = True
            if dead:
                _kill(p)
                del running[p]
                if os.path.exists(path):
                    r = json.load(open(path))
                elif stop:
                    continue
                else:
                    r = {"cfg": cfg, "late": True}
                results.append(r)
                if os.environ.get("SYMQ_TIMES"):
                    print("  TIME %.1f paths %s obl %s  %s" % (
                        time.time() - ts, r.get("stats", {}).get("paths"),
                        r.get("stats", {}).get("obligations"), cfgname(r["cfg"])),
                        flush=True)
                if r.get("violation") and not os.environ.get("SYMQ_ALL") and \
                        not known_match(pid, r["violation"]):
                    stop = True
                    todo = []
    shutil.rmtree(tmp, ignore_errors=True)
    return finish(pid, mod, tier, seed, cfgs, results, time.time() - t0, only)


def known_match(pid, v):
    for pat in known_list(pid):
        key = pat.split(" | ")[0].strip()
        if key in cfgname(v["cfg"]) + " :: " + v["label"] + " :: " + v["detail"]:
            return pat
    return None


def _kill(p):
    try:
        os.killpg(p, signal.SIGKILL)
    except OSError:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def finish(pid, mod, tier, seed, cfgs, results, wall, only=None):
    tot = engine.Stats()
    cov, undec, degr, errs, viols, knowns = set(), [], [], [], [], []
    val = unst = obl_paths = wsk = 0
    samples = []
    calls = {}
    for r in results:
        if "error" in r:
            errs.append((cfgname(r["cfg"]), r["error"]))
            continue
        if "late" in r:
            undec.append("%s: no result within the time or memory limit" %
                         cfgname(r["cfg"]))
            continue
        tot.add(r["stats"])
        cov |= set(r["cov"])
        val += r["validated"]
        unst += r["unstable"]
        wsk += r["witness_skipped"]
        obl_paths += r["obl_paths"]
        for k, n in r["calls"].items():
            calls[k] = calls.get(k, 0) + n
        nm = cfgname(r["cfg"])
        undec += ["%s: %s" % (nm, x) for x in r["undecided"]]
        degr += ["%s: %s" % (nm, x) for x in r["degraded"]]
        if r["obl_paths"] == 0 and not r["violation"] and not r["undecided"] \
                and not r["degraded"]:
            errs.append((nm, "vacuous: no feasible path reached an obligation"))
        if r["violation"]:
            k = known_match(pid, r["violation"])
            (knowns if k else viols).append((r["violation"], k))
        if len(samples) < 8:
            samples.append("%s: %d paths, %d obligations, %.1fs" % (
                nm, r["stats"]["paths"], r["stats"]["obligations"], r["wall"]))
    for v, k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for e in errs:
        print("ERROR %s: %s" % e)
    for u in undec[:20]:
        print("UNDECIDED %s" % u)
    for u in degr[:20]:
        print("NOT-ENCODED %s" % u)
    rc = 0
    if os.environ.get("SYMQ_ALL"):
        for v, _ in viols:
            print("  VIOL %s :: %s :: %s" % (cfgname(v["cfg"]), v["label"], v["detail"]))
    if viols:
        rc = 1
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        v = viols[0][0]
        rp = os.path.join(d, "%s.json" % pid)
        json.dump({"property": pid, "seed": seed, **v}, open(rp, "w"), indent=1, default=str)
        print("counterexample: config %s\n  assertion: %s\n  on the real code: %s: %s" % (
            cfgname(v["cfg"]), v["label"], v["kind"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    elif errs:
        rc = 2
    elif (undec or degr) and tot.discharged == 0:
        rc = 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Solver-based checking of the real code: the listed functions of "
            "/repo's current source were executed symbolically (symq), every branch on a "
            "symbolic value forked, and each assertion decided for all input values on every "
            "feasible path of every configuration (polynomial normal form + congruence "
            "under the path condition + z3). " + mod.BOUNDS,
            "bounds": mod.BOUNDS,
            "outside": getattr(mod, "OUTSIDE", ""),
            "configurations": len(cfgs), "configurations_run": len(results),
            "paths": tot.paths, "paths_with_obligations": obl_paths,
            "vacuous_paths": tot.vacuous,
            "obligations": tot.obligations, "discharged": tot.discharged,
            "solver_queries": tot.queries, "solver_seconds": round(tot.solver_s, 2),
            "solver_unknown": tot.unknown, "branch_decisions": tot.decisions,
            "symbolic_divisions": tot.domain,
            "paths_dividing_by_zero_replayed": sum(r.get("divzero", 0) for r in results),
            "undecided": undec[:50], "not_encoded": degr[:50],
            "witnesses_replayed_on_real_code": val, "witnesses_unstable": unst,
            "witnesses_unavailable": wsk,
            "opaque_kernel_calls": calls,
            "functions_encoded": sorted(cov),
            "samples": samples,
        },
        "wall_s": round(wall, 2),
        "violations": len(viols),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "floating point arithmetic is modelled as exact real/complex arithmetic",
            "matrix exponential, its Frechet derivative and the Hermitian "
            "eigendecomposition are uninterpreted functions of their argument",
        ],
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d configs, %d paths, %d/%d obligations discharged, %d queries (%.1fs "
          "solver), %d witnesses replayed, %d unstable, %d undecided, %d not encoded, %.1fs" % (
              pid, tier, len(results), tot.paths, tot.discharged, tot.obligations,
              tot.queries, tot.solver_s, val, unst, len(undec), len(degr), wall))
    return rc


def replay(path):
    v = json.load(open(path))
    mod = importlib.import_module("checks." + v["property"].lower())
    k, d, _ = conc_run(mod, v["cfg"], unjson(v["inputs"]), v.get("seed", 1))
    print(k, d)
    return 1 if k in ("viol", "raise") else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = a[2] if len(a) > 2 else None
    sys.exit(run_check(pid, tier, seed, only))


if __name__ == "__main__":
    main()
