"""mutrt.py <file> <function,..> <pid,..> [max] [procs]: mutants of the functions against the run-time checks, then (those that
survive) against all obligations of these properties; prints the mutants neither notices."""
import sys, os, random, shutil, subprocess, multiprocessing as mp
PIDS = sys.argv[3].split(",")
MAX = int(sys.argv[4]) if len(sys.argv) > 4 else 60
PROCS = int(sys.argv[5]) if len(sys.argv) > 5 else 3
sys.argv[3] = "x"
sys.argv[4:] = []
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutsweep as ms

PY = "/opt/venv/bin/python"


def one(job):
    j, (d, src) = job
    dst = "/tmp/mu/r%d_%d" % (os.getpid(), j)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree("/repo/philtorch", dst + "/philtorch", ignore=shutil.ignore_patterns("__pycache__"))
    open(dst + "/philtorch/" + ms.FILE, "w").write(src)
    res = None
    for pid in PIDS:
        for no in (0, 1):
            env = dict(os.environ, PHIL_PATH=dst, PHIL_NOEXT=str(no), PHIL_NEED_EXT="1", VERIF_SEED="1", RT_BUDGET="15", RT_CAP="4000",
                       CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
            try:
                p = subprocess.run([PY, "-W", "ignore", "/verif/rt/main.py", pid, dst + "/o.json"], env=env, capture_output=True, text=True, timeout=120)
                if p.returncode:
                    res = "rt " + pid
            except subprocess.TimeoutExpired:
                res = "rt timeout " + pid
            if res:
                break
        if res:
            break
    if not res:
        for pid in PIDS:
            try:
                subprocess.run(["python3-vt", "/verif/engine/run.py", pid, "py", dst + "/e.json"], env=dict(os.environ, VERIF_REPO=dst, VERIF_TIER="quick"),
                               capture_output=True, text=True, timeout=600)
                import json
                st = [o["status"] for o in json.load(open(dst + "/e.json"))["obligations"]]
                if "failed" in st:
                    res = "engine " + pid
                    break
                und = len([s for s in st if s != "proved"])
            except Exception as e:
                und = repr(e)[:80]
        else:
            res = "SURVIVED (undecided %s)" % und
    shutil.rmtree(dst, ignore_errors=True)
    return d, res


if __name__ == "__main__":
    os.makedirs("/tmp/mu", exist_ok=True)
    m = ms.build()
    random.Random(7).shuffle(m)
    c = {}
    with mp.Pool(PROCS) as p:
        for d, r in p.imap_unordered(one, list(enumerate(m[:MAX]))):
            k = r.split()[0]
            c[k] = c.get(k, 0) + 1
            if k != "rt":
                print(r, "|", d, flush=True)
    print(ms.FILE, ms.FUNCS, c, flush=True)
