"""Run the stable tests against a copy of the repository: stable.py [DIR]"""
import json, os, subprocess, sys, tempfile
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
sel = []
for x in sorted(stable):
    m, t = x.split("::")
    mod, cl = m.rsplit(".", 1)
    sel.append(f"{mod.replace('.', '/')}.py::{cl}::{t}")
with tempfile.TemporaryDirectory() as d:
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=d,
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    sys.exit(subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                             "no:cacheprovider", *sel], cwd=repo, env=e).returncode)
