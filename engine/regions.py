"""Sums over integer regions: a group of sums with one body vanishes when the signed count of the
regions containing any point is zero (decided by z3 over linear integer arithmetic)."""
import itertools, math
from fractions import Fraction

import z3

import ctx as CX
from ctx import cur, _zpoly, STATS, check_deadline
from poly import P, ZERO


CACHE = {}


def skeleton(X, t):
    if any(b[0] not in ("app", "mp", "ch") or not e.is_const() for b, e in t.f.items()):
        return None
    return tuple(sorted((repr(X.base_map(b, lambda p: 0)), e.cval()) for b, e in t.f.items()))


def solve(eqs, unknowns):
    """Solve polynomial equations (== 0) for the unknowns; returns (assignment, remaining equations) or None."""
    asg = {}
    eqs = list(eqs)
    todo = set(unknowns)
    while todo:
        pick = None
        for k, e in enumerate(eqs):
            for v in todo:
                if e.has(v) and e.lin_coef(v) in (1, -1):
                    pick = (k, v, e.lin_coef(v))
                    break
            if pick:
                break
        if pick is None:
            return None
        k, v, c = pick
        e = eqs.pop(k)
        val = (P.var(v) - e) if c == 1 else (P.var(v) + e)
        one = {v: val}
        eqs = [q.subst(one) for q in eqs]
        asg = {u: w.subst(one) for u, w in asg.items()}
        asg[v] = val
        todo.discard(v)
    return asg, eqs


def matchings(X, pat, t, limit=24):
    """Regions (equations, inequalities) of t in the variables of pat."""
    pg, tg = {}, {}
    for src, dst in ((pat, pg), (t, tg)):
        for b, e in src.f.items():
            dst.setdefault((repr(X.base_map(b, lambda p: 0)), e.cval()), []).append(b)
    keys = sorted(pg)
    n = 1
    for k in keys:
        n *= math.factorial(len(pg[k]))
    perms = [list(itertools.permutations(tg[k])) if n <= limit else [tuple(tg[k])] for k in keys]
    for choice in itertools.product(*perms):
        eqs = []
        for k, tb in zip(keys, choice):
            for b1, b2 in zip(pg[k], tb):
                eqs += [p - q for p, q in zip(X.base_polys(b1), X.base_polys(b2))]
        # every point of the term has exactly one point of the pattern with the same body ...
        r = solve(eqs, [v for v, _, _ in pat.b])
        if r is None or any(cur().n(q).d for q in r[1]):
            continue
        # ... and no two points of the term share one
        r = solve(eqs, [v for v, _, _ in t.b])
        if r is None:
            continue
        asg, rest = r
        rest = [q for q in rest if q.d]
        if any(q.is_const() for q in rest):
            continue
        ge = []
        for v, lo, hi in t.b:
            x = asg[v]
            ge += [x - lo.subst(asg), hi.subst(asg) - 1 - x]
        yield rest, ge


def group_vanishes(X, ts):
    c = cur()
    pat = max(ts, key=lambda t: len(t.b))
    mp = {v: P.var("%%r%d" % k) for k, (v, _, _) in enumerate(pat.b)}
    f = X.subst_term(pat, mp)
    pat = X.Term(pat.c, f.f, tuple((next(iter(mp[v].vars())), lo, hi) for v, lo, hi in f.b))
    options = []
    for t in ts:
        t = X.fresh_binders(t)
        ms = list(itertools.islice(matchings(X, pat, t), 24))
        if not ms:
            return False
        options.append(ms)
    tot = 1
    for o in options:
        tot *= len(o)
    if tot > 200:
        options = [o[:1] for o in options]
    facts = c.facts + c.bound_facts()
    den = math.lcm(*[Fraction(t.c).denominator for t in ts])
    t0 = CX.time.time()
    for ch in itertools.product(*options):
        key = (frozenset(facts), frozenset(c.nes), tuple(sorted(((t.c, tuple(eq), tuple(ge)) for t, (eq, ge) in zip(ts, ch)), key=repr)))
        if key in CACHE:
            if CACHE[key]:
                return True
            continue
        check_deadline()
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", 3000)
        for f in facts:
            s.add(_zpoly(f) >= 0)
        for q in c.nes:
            s.add(_zpoly(q) != 0)
        parts = []
        for t, (eq, ge) in zip(ts, ch):
            cond = z3.And([_zpoly(q) == 0 for q in eq] + [_zpoly(q) >= 0 for q in ge] + [z3.BoolVal(True)])
            parts.append(z3.If(cond, z3.IntVal(int(t.c * den)), z3.IntVal(0)))
        s.add(z3.Sum(parts) != 0)
        r = s.check()
        STATS["queries"] += 1
        CACHE[key] = r == z3.unsat
        if r == z3.unsat:
            STATS["time"] += CX.time.time() - t0
            return True
    STATS["time"] += CX.time.time() - t0
    return False


def drop(X, terms):
    """terms without the groups that vanish"""
    if len(terms) < 2 or len(terms) > 60:
        return terms
    groups = {}
    for t in terms:
        k = skeleton(X, t)
        if k is not None:
            groups.setdefault(k, []).append(t)
    dead = set()
    for k, ts in groups.items():
        if 2 <= len(ts) <= 12 and sum(1 for t in ts if t.c > 0) and sum(1 for t in ts if t.c < 0) and group_vanishes(X, ts):
            dead |= {id(t) for t in ts}
    return [t for t in terms if id(t) not in dead] if dead else terms
