"""run.py <pid> <kind> <out.json>: decide the obligations of one property (kind: py)."""
import sys, os, json, time, importlib, itertools, multiprocessing as mp

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import spec, ctx
import expr as X

MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts"))) if f.endswith(".py") and f != "__init__.py"]
TIER = os.environ.get("VERIF_TIER", "quick")


def pairs(o, t):
    import re

    tok = [w for w in re.split(r"[ ]+", o["name"]) if w]
    return {(o["function"],) + c for k in range(1, t + 1) for c in itertools.combinations(sorted(set(tok)), k)}


def pick(obs, t):
    """A subset in which every combination of t words of an obligation's name (shape forms, options) occurs."""
    import random

    order = list(obs)
    random.Random(5).shuffle(order)
    seen, out = set(), []
    for o in order:
        ks = pairs(o, t)
        if not ks <= seen:
            seen |= ks
            out.append(o)
    return out


# public functions of which every backend, block size and extension setting meets one contract
ONE_SPEC = ("linear_recurrence", ":state_space", "diag_state_space", ":lfilter", "_diag_ssm_lfilter", "state_space_recursion", "comb_filter", "cubic_spline", "filtfilt")


def load_all(pid):
    out = []
    if pid in ("C19", "C20"):
        for mn in MODULES:
            m = importlib.import_module("contracts." + mn)
            for o in getattr(m, "OBLIGATIONS", ()):
                if (o.get("thorough") and TIER != "thorough") or mn == "split":
                    continue
                if pid == "C19" and o["function"].endswith(ONE_SPEC):
                    out.append(o)
                elif pid == "C20" and o["function"] != "lemma" and "abstract" not in o["name"] and "mixed" not in o["name"]:
                    out.append(dict(o, name="frame: " + o["name"], frame=True))
        return out if TIER == "thorough" else pick(out, 2 if pid == "C19" else 3)
    for mn in MODULES:
        m = importlib.import_module("contracts." + mn)
        for o in getattr(m, "OBLIGATIONS", ()):
            if pid in o["pids"] and (TIER == "thorough" or not o.get("thorough")):
                out.append(o)
    return out


def concrete_sizes(names, limit):
    """Small concrete sizes, smallest sums first."""
    pref = {"B": (2, 1, 3), "M": (2, 3, 1), "U": (2, 3, 1, 4), "N": (1, 2, 3, 4, 5, 6, 7), "N1": (2, 1, 3, 4), "N2": (2, 3, 1)}
    # names: all sizes -> their smallest values (0 is tried where it is allowed)
    doms = [[v for v in pref.get(n, (1, 2, 3, 4)) + ((0,) if n not in pref else ()) if v >= lb] for n, lb in names.items()]
    combos = sorted(itertools.product(*doms), key=lambda c: (sum(c), c))
    step = max(1, len(combos) // limit)
    # a spread over the whole grid rather than only the smallest corner
    first = combos[: limit // 2]
    rest = combos[limit // 2 :: step]
    return [dict(zip(names, c)) for c in first + rest]


def refute(fn, names, seconds, bad=()):
    t0 = time.time()
    tried = 0
    first = []
    for b in list(bad)[:6]:
        sz = spec.model_sizes(b[2], names)
        if sz is not None and sz not in first:
            first.append(sz)
    for sz in first + concrete_sizes(names, 60):
        if time.time() - t0 > seconds:
            break
        spec.CONCRETE[0] = sz
        try:
            r = spec.run_obligation(fn, max(1, seconds - (time.time() - t0)))
        finally:
            spec.CONCRETE[0] = None
        tried += 1
        if r[0] in ("refuted", "raises"):
            return sz, r[1], tried
    return None, "", tried


def one(o):
    t0 = time.time()
    spec.SIZES.clear()
    spec.FRAME[0] = bool(o.get("frame"))
    d = dict(name=o["name"], function=o["function"], backend="normal-form prover + z3 (QF_LIA)")
    try:
        r = spec.run_obligation(o["fn"], o.get("seconds", 60))
    except Exception as e:
        import traceback

        r = ("unsupported", "engine: %s: %s" % (type(e).__name__, e) + traceback.format_exc()[-600:], 0)
    d["paths"] = r[2]
    if r[0] == "proved":
        d["status"] = "proved"
    elif r[0] == "definite" :
        d["status"] = "failed"
        d["detail"] = r[1][:1500]
    else:
        d["status"] = r[0]
        d["detail"] = r[1][:1500]
        names = dict(spec.SIZES)
        if not o.get("norefute"):
            try:
                sz, msg, tried = refute(o["fn"], names, o.get("refute_seconds", 25), r[3] if len(r) > 3 else ())
            except Exception as e:
                sz, msg, tried = None, "", 0
                d["detail"] += " | refutation: %s" % e
            if sz is not None:
                d["status"] = "failed"
                d["counterexample_sizes"] = {str(k): v for k, v in sz.items()}
                d["detail"] = "at sizes %s: %s" % (sz, msg[:800])
            else:
                d["detail"] += " | not refuted on %d small instances" % tried
    d["seconds"] = round(time.time() - t0, 2)
    d["stats"] = dict(ctx.STATS)
    for k in ctx.STATS:
        ctx.STATS[k] = 0
    if len(ctx._CACHE) > 400000:
        ctx._CACHE.clear()
    return d


def main():
    pid, kind, out = sys.argv[1:4]
    t0 = time.time()
    obs = load_all(pid)
    n = int(os.environ.get("ENGINE_PROCS", "6"))
    global OBS
    OBS = obs
    if n > 1 and len(obs) > 1:
        with mp.get_context("fork").Pool(n) as pool:
            res = pool.map(_go, range(len(obs)), chunksize=max(1, min(12, len(obs) // (n * 4))))
    else:
        res = [one(o) for o in obs]
    tot = {}
    for r in res:
        for k, v in r.pop("stats").items():
            tot[k] = tot.get(k, 0) + v
    solver = dict(backend="z3 %s" % __import__("z3").get_version_string(), queries=tot.get("queries", 0), solver_seconds=round(tot.get("time", 0), 2),
                  cached=tot.get("cache", 0), decided_by_bounds=tot.get("quick", 0), paths=tot.get("paths", 0), wall_s=round(time.time() - t0, 2), kind=kind)
    json.dump({"obligations": res, "solver": solver}, open(out, "w"), indent=1)
    bad = [r for r in res if r["status"] != "proved"]
    print("%s/%s: %d obligations, %d proved, %.1fs" % (pid, kind, len(res), len(res) - len(bad), time.time() - t0))
    for r in bad[:20]:
        print("  ", r["status"], r["name"], r.get("detail", "")[:300])


def _go(k):
    return one(OBS[k])


if __name__ == "__main__":
    main()
