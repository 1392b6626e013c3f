"""Path conditions, integer entailment (z3), symbolic sizes, path exploration."""
import time
import z3
from poly import P, ZERO, ONE, topoly


class Unsupported(Exception):
    """The engine cannot decide this construct."""


class Infeasible(Exception):
    """The current path has contradictory conditions."""


class Violated(Exception):
    """A named obligation fails on the current path (definite)."""


class Split(Exception):
    """A condition on a bound variable: split its range at `point`."""

    def __init__(self, var, point):
        super().__init__(var, point)
        self.var = var
        self.point = point


class DivSplit(Exception):
    """(var + off) is divided by k: split the bound variable into quotient and remainder."""

    def __init__(self, var, off, k):
        super().__init__(var, off, k)
        self.var, self.off, self.k = var, off, k


STATS = {"queries": 0, "time": 0.0, "cache": 0, "quick": 0, "paths": 0, "forks": 0}
_ZV = {}
_CACHE = {}
DEADLINE = [None]


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Unsupported("time budget of the obligation used up")


def _zmono(m):
    v = _ZV.get(m)
    if v is None:
        v = z3.Int("_".join(m))
        _ZV[m] = v
    return v


def _zpoly(p):
    ts = []
    for m, c in p.d.items():
        ts.append(z3.IntVal(c) if not m else (_zmono(m) if c == 1 else c * _zmono(m)))
    if not ts:
        return z3.IntVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def _quick_nonneg(p, lbs):
    """p >= 0 from constant lower bounds of the variables only."""
    mp = {}
    for v in p.vars():
        if v not in lbs:
            return False
        c = lbs[v]
        if c:
            mp[v] = P({(v,): 1, (): c})
    q = p.subst(mp) if mp else p
    return all(c >= 0 for c in q.d.values())


def z3_unsat(facts, extra, nmax=160):
    """True when facts (>=0) and extra (>=0) are contradictory (linearised, with products)."""
    # relevance closure
    vs = set()
    for e in extra:
        vs |= e.vars()
    rel = []
    pool = list(facts)
    changed = True
    while changed:
        changed = False
        rest = []
        for f in pool:
            if f.vars() & vs:
                rel.append(f)
                nv = f.vars() - vs
                if nv:
                    vs |= nv
                    changed = True
            else:
                rest.append(f)
        pool = rest
    key = (frozenset(rel), frozenset(extra))
    if key in _CACHE:
        STATS["cache"] += 1
        return _CACHE[key]
    t0 = time.time()
    cons = list(rel) + list(extra)
    monos = set(m for f in cons for m in f.d if len(m) >= 2)
    s = z3.SolverFor("QF_LIA")
    s.set("timeout", 2000)
    for f in cons:
        s.add(_zpoly(f) >= 0)
    res = s.check()
    if res == z3.sat and monos:
        prods = []
        seen = set(cons)
        low = [f for f in cons if f.degree() <= 2]
        for a in range(len(low)):
            for b in range(a, len(low)):
                f, g = low[a], low[b]
                if f.degree() + g.degree() > 3:
                    continue
                h = f * g
                nl = [m for m in h.d if len(m) >= 2]
                if not nl or h in seen:
                    continue
                hit = sum(1 for m in nl if m in monos)
                if hit == 0:
                    continue
                seen.add(h)
                prods.append((len(nl) - hit, len(nl), h))
        prods.sort(key=lambda t: t[:2])
        for _, _, h in prods[:nmax]:
            s.add(_zpoly(h) >= 0)
        res = s.check()
    out = res == z3.unsat
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    _CACHE[key] = out
    return out


class Ctx:
    def __init__(self, parent=None):
        if parent is None:
            self.facts = []
            self.nes = []
            self.sub = {}
            self.bound = []
            self.lbs = {}
            self.nfresh = 0
            self.syms = {}
            self.order = {}
            self.open = frozenset()
            self.divmemo = {}
            self.rel = {}
            self.log = []
        else:
            self.facts = list(parent.facts) + parent.bound_facts()
            self.nes = list(parent.nes)
            self.sub = dict(parent.sub)
            self.bound = []
            self.lbs = dict(parent.lbs)
            for v, lo, hi in parent.bound:
                if lo.is_const():
                    self.lbs[v] = lo.cval()
            self.nfresh = parent.nfresh
            self.syms = dict(parent.syms)
            self.order = dict(parent.order)
            self.open = parent.open | {b[0] for b in parent.bound}
            self.divmemo = dict(parent.divmemo)
            self.rel = dict(parent.rel)
            self.log = list(parent.log)
        self.prefix = []
        self.trail = []
        self.alts = []

    # ------------------------------------------------------------------ basic
    def bound_facts(self):
        out = []
        for v, lo, hi in self.bound:
            x = P.var(v)
            out.append(x - lo)
            out.append(hi - 1 - x)
        return out

    def n(self, p):
        p = topoly(p)
        return p.subst(self.sub) if self.sub else p

    def fresh(self, base="v"):
        self.nfresh += 1
        name = "%s'%d" % (base, self.nfresh)
        self.order[name] = len(self.order)
        return name

    def newvar(self, name, lb=None):
        """A named size or index variable with an optional constant lower bound."""
        if name in self.order:
            name = self.fresh(name)
        else:
            self.order[name] = len(self.order)
        p = P.var(name)
        if lb is not None:
            self.add_fact(p - lb)
        return p

    def add_fact(self, p):
        p = self.n(p)
        if p.is_const():
            if p.cval() < 0:
                raise Infeasible()
            return
        if p in self.facts:
            return
        if -p in self.facts:
            self.facts.remove(-p)
            self.add_eq(p)
            return
        self.facts.append(p)
        if p.degree() >= 2:
            self._scaled(self.n(p))
        if len(p.vars()) == 1 and p.degree() == 1:
            (v,) = p.vars()
            c = p.lin_coef(v)
            k = p.d.get((), 0)
            if c > 0:
                lb = -(k // c)
                if v not in self.lbs or self.lbs[v] < lb:
                    self.lbs[v] = lb
        nes, self.nes = self.nes, []
        for q in nes:
            if q.vars() & p.vars():
                self.add_ne(q)
            else:
                self.nes.append(q)

    def _scalings(self, p):
        """p = k*e + g for the sizes k that occur in products of p."""
        done = set()
        for m in list(p.d):
            if len(m) < 2:
                continue
            for v in m:
                if v in done:
                    continue
                done.add(v)
                e, g = {}, {}
                for mm, c in p.d.items():
                    if v in mm:
                        l = list(mm)
                        l.remove(v)
                        e[tuple(l)] = c
                    else:
                        g[mm] = c
                e, g = P(e), P(g)
                if not e.has(v) and self.entails(P.var(v) - 1):
                    yield P.var(v), e, g

    def reduced(self, p):
        """k*e + g >= 0 with 1 <= k: e >= 0 when 0 <= g < k, e >= 1 when -k <= g < 0."""
        for _ in range(3):
            if p.degree() < 2:
                return p
            for k, e, g in self._scalings(p):
                if self.entails(g):
                    if self.entails(k - 1 - g):
                        p = e
                        break
                elif self.entails(-g - 1) and self.entails(k + g):
                    p = e - 1
                    break
            else:
                return p
        return p

    def _scaled(self, p):
        """k*e + g >= 0 with 1 <= k and g < k gives e >= 0, with g < 0 gives e >= 1."""
        if len(p.vars()) == 1 and all(c >= 0 for m, c in p.d.items() if m):
            (v,) = p.vars()
            if self.entails(P.var(v)):
                b = 0
                while b < 64 and p.subst({v: P.const(b)}).cval() < 0:
                    b += 1
                if b:
                    self.add_fact(P.var(v) - b)
            return
        for k, e, g in self._scalings(p):
            if not self.entails(k - 1 - g):
                continue
            if self.entails(-g - 1):
                e = e - 1
            if self.entails(-e):
                self.add_eq(e)
            elif e not in self.facts:
                self.add_fact(e)
            return

    def add_ne(self, p):
        p = self.n(p)
        if p.is_const():
            if p.cval() == 0:
                raise Infeasible()
            return
        if self.entails(p):
            self.add_fact(p - 1)
        elif self.entails(-p):
            self.add_fact(-p - 1)
        else:
            self.nes.append(p)

    def add_eq(self, p):
        p = self.n(p)
        if p.is_const():
            if p.cval() != 0:
                raise Infeasible()
            return
        if len(p.d) == 2 and p.degree() >= 2:
            m = max(p.d, key=len)
            if p.d.get((), 0) == -p.d[m] and all(self.entails(P.var(v) - 1) for v in m):
                for v in sorted(set(m)):
                    self.add_eq(P.var(v) - 1)  # a product of positive sizes is 1
                return
        cands = [v for v in p.vars() if p.lin_coef(v) in (1, -1)]
        bnd = {b[0] for b in self.bound}
        cands = [v for v in cands if v not in bnd]
        if not cands:
            for q in (p, -p):
                if q not in self.facts:
                    self.facts.append(q)
            return
        v = max(cands, key=lambda x: self.order.get(x, -1))
        c = p.lin_coef(v)
        rest = p - P({(v,): c})
        val = -rest if c == 1 else rest
        self.set_sub(v, val)

    def set_sub(self, v, val):
        one = {v: val}
        self.sub = {k: x.subst(one) for k, x in self.sub.items()}
        self.sub[v] = val
        facts = self.facts
        nes = self.nes
        self.facts = []
        self.nes = []
        self.lbs.pop(v, None)
        for f in facts:
            self.add_fact(f.subst(one))
        for f in nes:
            self.add_ne(f.subst(one))
        self.bound = [(b, lo.subst(one), hi.subst(one)) for b, lo, hi in self.bound]

    def entails(self, p):
        p = self.n(p)
        if p.is_const():
            return p.cval() >= 0
        lbs = self.lbs
        if self.bound:
            lbs = dict(lbs)
            for v, lo, hi in self.bound:
                if lo.is_const():
                    lbs[v] = lo.cval()
        if _quick_nonneg(p, lbs):
            STATS["quick"] += 1
            return True
        facts = self.facts + self.bound_facts() if self.bound else self.facts
        for f in facts:
            d = p - f
            if d.is_const() and d.cval() >= 0:
                return True
            if len(d.d) <= 3 and _quick_nonneg(d, lbs):
                return True
        check_deadline()
        return z3_unsat(facts, (-p - 1,))

    def contradictory(self):
        facts = self.facts + self.bound_facts()
        left = list(facts)
        while left:  # one connected group of facts after the other
            f = left[0]
            if z3_unsat(facts, (f,)):
                return True
            vs, grow = f.vars(), True
            while grow:
                grow = False
                for g in list(left):
                    if g is f or g.vars() & vs:
                        left.remove(g)
                        if g.vars() - vs:
                            vs, grow = vs | g.vars(), True
        return False

    # -------------------------------------------------------------- decisions
    def _fork(self):
        STATS["forks"] += 1
        check_deadline()
        if len(self.trail) < len(self.prefix):
            d = self.prefix[len(self.trail)]
            self.trail.append(d)
            return d
        if len(self.trail) > 60:
            raise Unsupported("too many case distinctions on one path")
        self.alts.append(self.trail + [False])
        self.trail.append(True)
        return True

    def _boundvar(self, p):
        for v, lo, hi in reversed(self.bound):
            if p.has(v):
                c = p.lin_coef(v)
                if c in (1, -1):
                    return v, c
        return None

    def in_scope(self, p, bnd):
        """A case distinction on a sum variable outside its sum would be meaningless."""
        for v in p.vars():
            if (v[0] == "%" or v[:2] in ("k'", "w'")) and v not in bnd and v not in self.open:
                raise Unsupported("sum variable %s out of scope" % v)

    def ge0(self, p):
        """Decide p >= 0 (bound variable: raise Split; free: fork the path)."""
        p = self.n(p)
        if p.is_const():
            return p.cval() >= 0
        if self.entails(p):
            return True
        if self.entails(-p - 1):
            return False
        p2 = self.reduced(p)
        if p2 is not p:
            return self.ge0(p2)
        bnd = {b[0] for b in self.bound}
        self.in_scope(p, bnd)
        if p.vars() & bnd:
            bv = self._boundvar(p)
            if bv is None:
                raise Unsupported("condition %r >= 0 on a bound variable" % p)
            v, c = bv
            rest = p - P({(v,): c})
            raise Split(v, -rest if c == 1 else rest + 1)
        d = self._fork()
        self.add_fact(p if d else -p - 1)
        return d

    def eq0(self, p):
        p = self.n(p)
        if p.is_const():
            return p.cval() == 0
        for q in self.nes:
            if q == p or q == -p:
                return False
        if self.entails(p - 1) or self.entails(-p - 1):
            return False
        if self.entails(p) and self.entails(-p):
            return True
        bnd = {b[0] for b in self.bound}
        self.in_scope(p, bnd)
        if p.vars() & bnd:
            bv = self._boundvar(p)
            if bv is None:
                raise Unsupported("condition %r == 0 on a bound variable" % p)
            v, c = bv
            rest = p - P({(v,): c})
            pt = -rest if c == 1 else rest
            if self.entails(P.var(v) - pt):
                raise Split(v, pt + 1)
            raise Split(v, pt)
        d = self._fork()
        if d:
            self.add_eq(p)
        else:
            self.add_ne(p)
        return d

    def divmod(self, i, k):
        i = self.n(i)
        k = self.n(k)
        if i.is_const() and k.is_const():
            q, r = divmod(i.cval(), k.cval())
            return P.const(q), P.const(r)
        if k.is_const() and k.cval() == 1:
            return i, ZERO
        if not self.entails(k - 1):
            if not self.ge0(k - 1):
                raise Unsupported("division by a non-positive size")
            i = self.n(i)
            k = self.n(k)
            if k.is_const():
                return self.divmod(i, k)
        q, r = i.divexact_split(k)
        memo = self.divmemo.get((i, k))
        if memo:
            return self.n(memo[0]), self.n(memo[1])
        for _ in range(3):
            lo = self.entails(r)
            hi = self.entails(k - 1 - r)
            if lo and hi:
                return q, r
            if not lo and self.entails(-r - 1) and self.entails(r + k):
                q, r = q - 1, r + k
                continue
            if not hi and self.entails(r - k) and self.entails(k * 2 - 1 - r):
                q, r = q + 1, r - k
                continue
            break
        # the remainder is close: decide by cases
        if self.entails(r + k) and self.entails(k * 2 - 1 - r):
            if not self.ge0(r):
                return self.n(q - 1), self.n(r + k)
            if self.ge0(k - 1 - r):
                return self.n(q), self.n(r)
            return self.n(q + 1), self.n(r - k)
        bnd = {b[0] for b in self.bound}
        self.in_scope(r, bnd)
        self.in_scope(k, bnd)
        if r.vars() & bnd:
            bv = self._boundvar(r)
            if bv is None or bv[1] != 1:
                raise Unsupported("division of %r by %r" % (i, k))
            v = bv[0]
            raise DivSplit(v, r - P.var(v), k)
        cands = [v for v in r.vars() if r.lin_coef(v) in (1, -1) and not k.has(v)]
        qn = self.newvar(self.fresh("q"))
        rn = self.newvar(self.fresh("r"), 0)
        self.add_fact(k - 1 - rn)
        if self.entails(r):
            self.add_fact(qn)
        if cands:
            v = max(cands, key=lambda x: self.order.get(x, -1))
            c = r.lin_coef(v)
            rest = r - P({(v,): c})
            val = k * qn + rn - rest
            self.set_sub(v, val if c == 1 else -val)
        else:
            self.add_eq(r - k * qn - rn)
        self.divmemo[(i, k)] = (q + qn, rn)
        return self.n(q + qn), self.n(rn)


CUR = [Ctx()]


def cur():
    return CUR[0]


class Result:
    def __init__(self):
        self.paths = 0
        self.bad = []


def explore(fn, base=None, maxpaths=400):
    """Run fn on every feasible path under the current (or given) facts.
    Returns a list of (ctx, value)."""
    saved = CUR[0]
    base = base if base is not None else saved
    work = [[]]
    out = []
    try:
        while work:
            prefix = work.pop()
            c = Ctx(base)
            c.prefix = prefix
            CUR[0] = c
            STATS["paths"] += 1
            try:
                v = fn()
                out.append((c, v))
            except Infeasible:
                pass
            work.extend(c.alts)
            if len(out) + len(work) > maxpaths:
                raise Unsupported("more than %d paths" % maxpaths)
    finally:
        CUR[0] = saved
    return out


# ------------------------------------------------------------------- SymInt
class SymInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def _n(self):
        return cur().n(self.p)

    def __repr__(self):
        return "<%r>" % self._n()

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return hash(self._n())

    def __bool__(self):
        return not cur().eq0(self.p)

    def __eq__(self, o):
        if isinstance(o, (int, SymInt)):
            return cur().eq0(self.p - topoly(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (int, SymInt)):
            return not cur().eq0(self.p - topoly(o))
        return NotImplemented

    def __ge__(self, o):
        return cur().ge0(self.p - topoly(o))

    def __gt__(self, o):
        return cur().ge0(self.p - topoly(o) - 1)

    def __le__(self, o):
        return cur().ge0(topoly(o) - self.p)

    def __lt__(self, o):
        return cur().ge0(topoly(o) - self.p - 1)

    def __add__(self, o):
        if isinstance(o, (int, SymInt)):
            return mk(self.p + topoly(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (int, SymInt)):
            return mk(self.p - topoly(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, (int, SymInt)):
            return mk(topoly(o) - self.p)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return mk(self.p * topoly(o))
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, (int, SymInt)):
            return mk(self.p * topoly(o))
        if isinstance(o, list):
            from tens import SymSeq

            if len(o) != 1:
                raise Unsupported("list repetition")
            item = o[0]
            return SymSeq(self.p, lambda i: item)
        return NotImplemented

    def __neg__(self):
        return mk(-self.p)

    def __floordiv__(self, o):
        return mk(cur().divmod(self.p, topoly(o))[0])

    def __mod__(self, o):
        return mk(cur().divmod(self.p, topoly(o))[1])

    def __rfloordiv__(self, o):
        return mk(cur().divmod(topoly(o), self.p)[0])

    def __rmod__(self, o):
        return mk(cur().divmod(topoly(o), self.p)[1])

    def __truediv__(self, o):
        return SymRatio(self, o)

    def __rtruediv__(self, o):
        return SymRatio(o, self)

    def __pow__(self, e):
        if e == 0.5:
            return SymRoot(self)
        if isinstance(e, int) and e >= 0:
            r = ONE
            for _ in range(e):
                r = r * self.p
            return mk(r)
        raise Unsupported("power of a size")

    def __index__(self):
        p = self._n()
        if p.is_const():
            return p.cval()
        raise Unsupported("symbolic size %r used as a concrete index" % p)

    __int__ = __index__


class SymRoot:
    """N ** 0.5; only its rounding is modelled (an integer in [1, N] for N >= 1, 0 for N = 0)."""

    def __init__(self, n):
        self.n = n

    def __round__(self, *a):
        c = cur()
        if not c.ge0(self.n.p - 1):
            return 0
        k = c.newvar(c.fresh("root"), 1)
        c.add_fact(c.n(self.n.p) - k)
        return mk(k)


class SymRatio:
    def __init__(self, num, den):
        self.num, self.den = num, den


def mk(p):
    p = cur().n(p)
    return p.cval() if p.is_const() else SymInt(p)


def pmin(a, b):
    return a if cur().ge0(b - a) else b
