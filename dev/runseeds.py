"""development tool: run each planted change's check (or all checks: --all) against a scratch copy with the change applied"""
import sys, os, json, subprocess, shutil, glob, re
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.path.basename(d) for d in glob.glob("/verif/seeded/*"))
for i in ids:
    w = f"/tmp/rs_{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        subprocess.run(["git", "-C", w, "apply", f"/verif/seeded/{i}/patch.diff"], check=True)
        pid = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
        r = subprocess.run(["bin/check", pid], cwd="/verif", env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
        o = r.stdout
        head = next((l for l in o.splitlines() if l.startswith(pid + ":")), "")
        v = next((l for l in o.splitlines() if l.startswith("VIOLATION")), "no VIOLATION line")
        print(i, r.returncode, head, "|", v, "|", r.stderr[-200:] if r.returncode not in (0, 1) else "")
        for l in o.splitlines():
            if l.startswith("  failed obligation") or l.startswith("  failing input"): print("      ", l[:260])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    sys.stdout.flush()
