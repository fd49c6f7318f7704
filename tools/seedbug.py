"""Creates and confirms planted bugs.

  seedbug.py FILE...     each FILE (Python) defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO
Works on scratch worktrees of /repo only.  Writes /verif/seeded/<ID>/ when the change is confirmed:
applies, stable test passes, demo is 0 without and nonzero with it.  Then runs the property's check on it.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile
VERIF = pathlib.Path(__file__).resolve().parents[1]
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here/standins" MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
scratch=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch" SCRATCH="$scratch"
timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
exit $?
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)
def one(path, runs=None):
    b = runpy.run_path(path)
    d = VERIF / "seeded" / b["ID"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="seed.", dir="/tmp"))
    wt = tmp / "repo"
    try:
        sh(["git", "worktree", "add", "-q", "--detach", str(wt), "HEAD"], "/repo")
        for f, old, new in b["EDITS"]:
            p = wt / "nonlinear_avoidance" / f
            s = p.read_text()
            if s.count(old) != 1:
                return f"{b['ID']}: edit of {f} matches {s.count(old)} times"
            p.write_text(s.replace(old, new))
        diff = sh("git diff", wt).stdout
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(b["DEMO"].lstrip("\n"))
        (d / "demo.sh").write_text(DEMO_SH)
        os.chmod(d / "demo.sh", 0o755)
        shutil.copytree(VERIF / "standins", d / "standins", ignore=shutil.ignore_patterns("__pycache__"))
        (d / "meta.json").write_text(json.dumps(dict(property=b["PROPERTY"], needs=b["NEEDS"], what_it_breaks=b["BREAKS"]), indent=1))
        bad = sh(["bash", str(d / "demo.sh")], wt)
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/test_graph_handler.py", "-k", "test_graph_element"], wt, env=dict(os.environ, PYTHONPATH=str(wt), MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"))
        full = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], wt, env=dict(os.environ, PYTHONPATH=f"{wt}:{VERIF}/standins", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        chk = sh(["./check.sh", b["PROPERTY"], "--no-evidence"] + (["--runs", str(runs)] if runs else []), VERIF, env=dict(os.environ, NOA_REPO=str(wt)))
        sh("git checkout -q -- .", wt)
        good = sh(["bash", str(d / "demo.sh")], wt)
        res = f"{b['ID']}: demo clean={good.returncode} bug={bad.returncode} stable={t.returncode} suite={full.stdout.strip().splitlines()[-1:]} check={chk.returncode} {[l for l in chk.stdout.splitlines() if 'VIOLATION' in l or 'kind' in l or 'violation' in l][:2]}"
        if good.returncode:
            res += "\n CLEAN DEMO: " + (good.stdout + good.stderr)[-1500:]
        if bad.returncode == 0:
            res += "\n BUG DEMO: " + (bad.stdout + bad.stderr)[-600:]
        else:
            res += "\n   " + (bad.stdout + bad.stderr).strip().splitlines()[-1][:200]
        return res
    finally:
        sh(["git", "worktree", "remove", "--force", str(wt)], "/repo")
        shutil.rmtree(tmp, ignore_errors=True)
for f in sys.argv[1:]:
    print(one(f), flush=True)
