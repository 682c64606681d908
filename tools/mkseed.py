"""mkseed.py SPEC.py [ids..]: make and validate planted bugs. SPEC.py defines BUGS, a list of
dicts id, prop, file, subs [(old, new)], demo, needs, what."""
import json, os, subprocess, sys, runpy
REPO = os.environ.get("MK_REPO", "/repo")    # elsewhere: trial, nothing is written to seeded
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "seeded") if REPO == "/repo" else "/tmp/trial"
sys.dont_write_bytecode = True


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests():
    if REPO == "/repo":
        sh("bash /opt/vp/test.sh /tmp/mk.json")
        r = json.load(open("/tmp/mk.json"))
        return r["passed"] if isinstance(r["passed"], int) else len(r["passed"])
    r = sh("PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH=%s/src "
           "/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 tests" % REPO, cwd=REPO)
    return r.stdout.splitlines()[-1][:60]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        assert not sh("git -C "+REPO+" status --porcelain").stdout.strip()
        d = os.path.join(OUT, b["id"])
        os.makedirs(d, exist_ok=True)
        files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["subs"])
        try:
            for f, (old, new) in zip(files, b["subs"]):
                p = os.path.join(REPO, "src/qutip_qtrl", f)
                t = open(p).read()
                assert t.count(old) == 1, (b["id"], t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C "+REPO+" diff").stdout
            open(d + "/patch.diff", "w").write(diff)
        finally:
            sh("git -C "+REPO+" checkout -- .")
        open(d + "/demo.py", "w").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\n'
            'H="$(cd "$(dirname "$0")" && pwd)"\nD="$(mktemp -d)"\ntrap \'rm -rf "$D"\' EXIT\n'
            'cd "$D"\n/opt/venv/bin/python "$H/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(d + "/meta.json", "w"), indent=1)
        ok = sh("bash %s/demo.sh" % d, cwd=REPO)
        sh("git -C "+REPO+" apply %s/patch.diff" % d)
        try:
            bad = sh("bash %s/demo.sh" % d, cwd=REPO)
            if os.environ.get("MK_FAST"):       # validated before, write only
                print(b["id"], ok.returncode, bad.returncode)
                continue
            nt = tests()
            chk = sh("./check.sh %s quick" % b["prop"], cwd=VERIF,
                     env=dict(os.environ, QTRL_REPO=REPO))
        finally:
            sh("git -C "+REPO+" checkout -- .")
        det = [l for l in chk.stdout.splitlines() if "VIOLATION" in l or "assertion" in l
               or "real code" in l]
        print(b["id"], "demo clean", ok.returncode, "patched", bad.returncode, "tests", nt,
              "CAUGHT" if chk.returncode == 1 else "MISSED rc=%d" % chk.returncode, det[:2],
              (chk.stdout.splitlines() or [""])[-1][-60:])
        if ok.returncode:
            print(ok.stdout[-500:], ok.stderr[-1500:])
        sys.stdout.flush()


main()
