"""Make a planted change: plant.py SPEC.py  ->  /verif/seeded/<id>/

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (text of
demo.py).  Works in a scratch copy of /repo, never in /repo; confirms that the
demonstration passes before and fails after and that the stable tests pass.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
HELP = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_help.py")).read()
SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/demo.XXXXXXXX)"
export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$scratch" DEMO_SCRATCH="$scratch"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
PYTHONPATH="$PWD:$here" timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
case "$scratch" in /tmp/demo.????????) rm -rf -- "$scratch";; esac
exit $rc
"""


def run(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)


def main(spec):
    s = runpy.run_path(spec)
    d = f"/verif/seeded/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        repo = work + "/repo"
        shutil.copytree("/repo", repo)
        open(d + "/demo.py", "w").write(s["DEMO"])
        open(d + "/demo_help.py", "w").write(HELP)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        a = run(["bash", d + "/demo.sh"], repo)
        if a.returncode:
            print(s["ID"], "demo fails on the unchanged tree", a.stdout[-2000:], a.stderr[-2000:])
            return 1
        for f, old, new in s["EDITS"]:
            p = f"{repo}/inflation/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = run(["bash", d + "/demo.sh"], repo)
        print(s["ID"], "demo with change:", b.returncode, b.stdout.strip()[-300:])
        if not b.returncode:
            return 1
        if b.stderr.strip():
            print("   stderr:", b.stderr.strip()[-300:])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        files = sorted({x.split("::")[0].rsplit(".", 1)[0].replace(".", "/") + ".py" for x in stable})
        sel = []
        for x in sorted(stable):
            m, t = x.split("::")
            mod, cl = m.rsplit(".", 1)
            sel.append(f"{mod.replace('.', '/')}.py::{cl}::{t}")
        os.makedirs(work + "/n")
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"] + sel, repo,
                NUMBA_CACHE_DIR=work + "/n")
        print("   tests:", t.stdout.strip().splitlines()[-1])
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        return t.returncode
    finally:
        shutil.rmtree(work)


sys.exit(max([main(x) for x in sys.argv[1:]]))
