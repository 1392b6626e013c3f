import sys, time, importlib
sys.setrecursionlimit(20000)
import spec, ctx
mods = sys.argv[1].split(",")
pat = sys.argv[2] if len(sys.argv) > 2 else ""
first = "-x" in sys.argv
from collections import Counter
cnt = Counter()
for mn in mods:
    m = importlib.import_module("contracts." + mn)
    for o in m.OBLIGATIONS:
        if pat and pat not in o["name"]:
            continue
        t = time.time()
        r = spec.run_obligation(o["fn"], 120)
        cnt[r[0]] += 1
        if cnt[r[0]] > 12 and "-v" not in sys.argv:
            continue
        print("%-10s %5.1fs %4d paths  %s" % (r[0], time.time() - t, r[2], o["name"]), flush=True)
        if r[0] != "proved":
            print("      ", r[1][:1500])
            if len(r) > 3:
                print("      bad paths:", len(r[3]), "facts:", r[3][0][2].facts[:12], r[3][0][2].sub)
            if first:
                sys.exit()
print(dict(cnt), ctx.STATS)
