import os, sys, json, subprocess, shutil, tempfile, time, filecmp, glob, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYREAL = "/opt/venv/bin/python"
PYVT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
ENV = dict(os.environ, CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="2", MKL_NUM_THREADS="1",
           PYTHONHASHSEED="0", HOME=os.environ.get("HOME", "/root"))
ENV.pop("PYTHONPATH", None)


def ext_is_fresh():
    so = glob.glob(f"{REPO}/philtorch/_C*.so")
    seen = f"{REPO}/build/seen"
    if not so or not os.path.isdir(seen):
        return False
    for f in glob.glob(f"{REPO}/philtorch/csrc/*") + [f"{REPO}/setup.py"]:
        s = os.path.join(seen, os.path.basename(f))
        if not os.path.exists(s) or not filecmp.cmp(f, s, shallow=False):
            return False
        if os.path.getmtime(so[0]) + 1 < os.path.getmtime(s):
            return False
    return True


def prepare_ext(scratch):
    """directory to import philtorch from, with an extension built from the current sources"""
    if ext_is_fresh():
        return REPO, "reused build of the same sources"
    dst = os.path.join(scratch, "repo")
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git", "build", "_C*.so", "tests", "examples", ".pixi"))
    t0 = time.time()
    p = subprocess.run([PYREAL, "setup.py", "build_ext", "--inplace"], cwd=dst,
                       env=dict(ENV, GIT_DIR="/nonexistent", MAX_JOBS="6", PATH="/opt/venv/bin:" + ENV.get("PATH", "")),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not glob.glob(f"{dst}/philtorch/_C*.so"):
        sys.stderr.write(p.stdout[-3000:])
        raise SystemExit("the compiled extension does not build from the current sources")
    return dst, f"built from current sources in {time.time() - t0:.0f}s"
