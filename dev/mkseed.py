"""development tool: make and validate a planted change.
usage: mkseed.py seeds.py [id...]   (seeds.py: SEEDS = {id: dict(property, file, old, new, needs, breaks, demo)})
Works in a scratch copy of /repo; writes /verif/seeded/<id>/ when the change builds, passes the stable tests,
and the demonstration fails with it and passes without it."""
import sys, os, json, subprocess, shutil, runpy
S = runpy.run_path(sys.argv[1])["SEEDS"]
ids = sys.argv[2:] or list(S)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", MKL_NUM_THREADS="1", HOME="/root", MAX_JOBS="4", PYTHONHASHSEED="0")
DEMO = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds on this input
export CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**env, **k.pop("env", {})}, capture_output=True, text=True, **k)
def one(i):
    s = S[i]
    w = f"/tmp/seed_{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    d = f"/verif/seeded/{i}"
    try:
        for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
            p = f"{w}/{f}"
            t = open(p).read()
            nth = s.get("nth", 0)
            assert t.count(old) >= 1, (i, "no such text", old)
            if t.count(old) > 1 and "nth" not in s: print(i, "note:", t.count(old), "occurrences, first changed")
            pos = -1
            for _ in range(nth + 1): pos = t.index(old, pos + 1)
            t = t[:pos] + new + t[pos + len(old):]
            open(p, "w").write(t)
        diff = sh("git diff", w).stdout
        tmp = f"{w}_demo"; os.makedirs(tmp, exist_ok=True)
        open(f"{tmp}/demo.py", "w").write(s["demo"]); open(f"{tmp}/demo.sh", "w").write(DEMO); os.chmod(f"{tmp}/demo.sh", 0o755)
        r = sh(f"bash {tmp}/demo.sh", "/repo")
        if r.returncode != 0:
            print(i, "DEMO FAILS ON THE UNCHANGED TREE", r.stdout[-500:], r.stderr[-800:]); return
        if any(".cpp" in l for l in diff.splitlines() if l.startswith("+++")):
            sh("rm -rf build philtorch/_C*.so", w)
            r = sh("GIT_DIR=/nonexistent /opt/venv/bin/python setup.py build_ext --inplace", w)
            if r.returncode: print(i, "DOES NOT BUILD", r.stderr[-800:]); return
        r = sh(f"bash {tmp}/demo.sh", w)
        if r.returncode == 0:
            print(i, "DEMO PASSES WITH THE CHANGE"); return
        why = (r.stdout + r.stderr)[-300:]
        r = sh(f"/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p vp_seed --no-cov --timeout=300 -n 8 --dist worksteal -o junit_family=xunit2 --junitxml={tmp}/j.xml", w, env={"PYTHONPATH": f"{w}:/opt/vp/plugins"})
        sh(f"python3 /opt/vp/results.py {tmp}/out.json junit:{tmp}/j.xml", w)
        o = json.load(open(f"{tmp}/out.json"))
        bad = sorted(stable - set(o["passed"]))
        if bad: print(i, "TESTS FAIL", len(bad), bad[:3]); return
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        shutil.copy(f"{tmp}/demo.py", d); shutil.copy(f"{tmp}/demo.sh", d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print(i, "OK:", (why.strip().splitlines() or ['exit 1'])[-1][:160])
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(f"{w}_demo", ignore_errors=True)
for i in ids:
    try: one(i)
    except Exception as e: print(i, "ERROR", repr(e)[:300])
    sys.stdout.flush()
