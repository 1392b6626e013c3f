import sys, os, json, random
from common import *
import props_a, props_b, props_c


def lookup(pid):
    for m in (props_a, props_b, props_c):
        if hasattr(m, "run_" + pid):
            return getattr(m, "gen_" + pid), getattr(m, "run_" + pid)
    raise SystemExit("unknown property " + pid)


if __name__ == "__main__":
    pid, out = sys.argv[1], sys.argv[2]
    gen, run = lookup(pid)
    if len(sys.argv) > 3 and sys.argv[3] == "--case":
        case = json.loads(sys.argv[4])
        try:
            run(case)
        except Bad as e:
            print("FAILS:", e)
            sys.exit(1)
        print("holds")
        sys.exit(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("RT_BUDGET", "20"))
    cap = int(os.environ.get("RT_CAP", "4000"))
    import itertools
    res = run_cases(itertools.islice(gen(random.Random(f"{pid}-{seed}-{NOEXT}")), cap), run, budget)
    res["ext"] = EXT
    json.dump(res, open(out, "w"))
    sys.exit(1 if res["fails"] else 0)
