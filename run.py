#!/opt/venv/bin/python
"""Entry point:  run.py check <PROPERTY> [--tier quick|thorough] | run.py replay <FILE> | run.py list"""
import os, sys, tempfile, atexit, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KOMM_REPO", "/repo")
if os.environ.get("_KOMM_PBT_CHILD") != "1":
    # Re-exec once with a clean, deterministic environment and no bytecode written anywhere real.
    env = dict(os.environ, TQDM_DISABLE="1")
    env.update(_KOMM_PBT_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONIOENCODING="utf-8", LC_ALL="C.UTF-8")
    scratch = tempfile.mkdtemp(prefix="komm_pbt_")
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    env["KOMM_PBT_SCRATCH"] = scratch
    import subprocess
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    p = subprocess.Popen([py, "-B", os.path.abspath(__file__), *sys.argv[1:]], env=env)
    import signal
    def _fwd(sig, frame):
        try: p.terminate()
        except Exception: pass
    signal.signal(signal.SIGTERM, _fwd); signal.signal(signal.SIGINT, _fwd)
    try:
        rc = p.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)

sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, HERE)
for extra in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    sys.path.append(extra)

from pbt import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:], here=HERE))
