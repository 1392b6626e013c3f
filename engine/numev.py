"""Exact evaluation of a residual at random entries over GF(p^2), p = 3 mod 4 (i*i = -1, conjugation = Frobenius).
A residual that is identically zero over the complex numbers evaluates to zero here, so a nonzero value refutes."""
import random
from ctx import cur, Unsupported
from poly import P

PR = (1 << 61) - 1  # prime, 3 mod 4


class G:
    __slots__ = ("a", "b")

    def __init__(self, a, b=0):
        self.a, self.b = a % PR, b % PR

    def __add__(self, o):
        return G(self.a + o.a, self.b + o.b)

    def __sub__(self, o):
        return G(self.a - o.a, self.b - o.b)

    def __mul__(self, o):
        return G(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a)

    def conj(self):
        return G(self.a, -self.b)

    def inv(self):
        n = (self.a * self.a + self.b * self.b) % PR
        if n == 0:
            raise ZeroDivisionError
        k = pow(n, PR - 2, PR)
        return G(self.a * k, -self.b * k)

    def zero(self):
        return self.a == 0 and self.b == 0

    def pw(self, e):
        if e < 0:
            return self.inv().pw(-e)
        r, x = G(1), self
        while e:
            if e & 1:
                r = r * x
            x = x * x
            e >>= 1
        return r


def inverse(m):
    n = len(m)
    m = [list(r) + [G(1 if i == j else 0) for j in range(n)] for i, r in enumerate(m)]
    for k in range(n):
        p = next((r for r in range(k, n) if not m[r][k].zero()), None)
        if p is None:
            raise ZeroDivisionError
        m[k], m[p] = m[p], m[k]
        v = m[k][k].inv()
        m[k] = [x * v for x in m[k]]
        for r in range(n):
            if r != k and not m[r][k].zero():
                w = m[r][k]
                m[r] = [x - w * y for x, y in zip(m[r], m[k])]
    return [r[n:] for r in m]


class Env:
    def __init__(self, seed):
        self.seed = seed
        self.val = {}
        self.c = cur()
        self.depth = 0
        self.recip = {s.name: ts for s, k, ts in self.c.syms.get("#recip", ())}

    def fresh(self, real, key):
        rnd = random.Random("%s %r" % (self.seed, key))
        return G(rnd.randrange(1, PR), 0 if real else rnd.randrange(1, PR))

    def poly(self, p, sub):
        p = self.c.n(p.subst(sub) if sub else p)
        if not p.is_const():
            raise Unsupported("symbolic index %r" % p)
        v = p.cval()
        if v != int(v):
            raise Unsupported("fractional index")
        return int(v)

    def entry(self, name, idx):
        key = (name, idx)
        v = self.val.get(key)
        if v is not None:
            return v
        s = self.c.syms.get(name)
        if s is None:
            raise Unsupported("unknown symbol " + name)
        if s.ext is not None:
            v = self.entry(s.ext.name, idx)
        elif name in self.recip:
            v = self.terms(self.recip[name], {}).inv()
        elif s.rule is not None:
            self.depth += 1
            if self.depth > 400:
                raise Unsupported("recursion too deep to evaluate")
            pi = tuple(P.const(k) for k in idx)
            t0 = self.poly(s.t0, {})
            r = s.rule(pi) if idx[s.tpos] >= t0 else s.init(pi)
            from expr import toexpr

            v = self.terms(toexpr(r).t, {})
            self.depth -= 1
        else:
            m = self.c.syms.get(("model", name))
            v = m(self, idx) if m is not None else self.fresh(s.real, key)
        self.val[key] = v
        return v

    def matrix(self, name, batch, kind, t):
        s = self.c.syms.get(name)
        n = self.poly(s.shape[-1], {})
        lead = batch if kind == "mp" else batch + (t,)
        return [[self.mat(name, lead + (i, j), s) for j in range(n)] for i in range(n)]

    def mat(self, name, key, s):
        k = ("#mat", name, key)
        if k not in self.val:
            while s.ext is not None:
                name, s = s.ext.name, s.ext
                return self.mat(name, key, s)
            m = self.c.syms.get(("model", name))
            self.val[k] = m(self, key) if m is not None else self.fresh(s.real, k)
        return self.val[k]

    def base(self, b, sub):
        k = b[0]
        if k == "zv":
            return G(self.poly(P.var(b[1]), sub))
        if k == "app":
            v = self.entry(b[1], tuple(self.poly(x, sub) for x in b[2]))
            return v.conj() if b[3] else v
        if k == "mp":
            batch, e, i, j = tuple(self.poly(x, sub) for x in b[2]), self.poly(b[3], sub), self.poly(b[4], sub), self.poly(b[5], sub)
            m, cj = self.matrix(b[1], batch, "mp", 0), b[6]
            if e < 0:
                m, e = inverse(m), -e
            ms = [m] * e
        elif k == "ch":
            batch, a, z, i, j = tuple(self.poly(x, sub) for x in b[2]), self.poly(b[3], sub), self.poly(b[4], sub), self.poly(b[5], sub), self.poly(b[6], sub)
            kind = self.c.syms[b[1]].kind
            ts = list(range(a, z, -1)) if kind == "desc" else list(range(a, z))
            if (kind == "desc" and z > a) or (kind != "desc" and z < a):
                raise Unsupported("reversed chain")
            ms, cj = [self.matrix(b[1], batch, "ch", t) for t in ts], b[7]
        else:
            raise Unsupported("cannot evaluate " + k)
        s = self.c.syms[b[1]]
        n = self.poly(s.shape[-1], {})
        row = [G(1 if q == i else 0) for q in range(n)]
        for m in ms:
            row = [sum((row[p] * m[p][q] for p in range(n)), G(0)) for q in range(n)]
        v = row[j]
        return v.conj() if cj else v

    def term(self, t, sub, k):
        if k < len(t.b):
            v, lo, hi = t.b[k]
            r = G(0)
            for q in range(self.poly(lo, sub), self.poly(hi, sub)):
                r = r + self.term(t, {**sub, v: P.const(q)}, k + 1)
            return r
        r = G(t.c.numerator) * G(t.c.denominator).inv()
        for b, e in t.f.items():
            r = r * self.base(b, sub).pw(self.poly(e, sub))
        return r

    def terms(self, ts, sub):
        r = G(0)
        for t in ts:
            if len(t.b) > 1:
                from expr import _toposort, Term

                t = Term(t.c, t.f, _toposort(t.b))
            r = r + self.term(t, sub, 0)
        return r


def nonzero(terms):
    """True: refuted; False: no counterexample found; None: cannot evaluate."""
    try:
        for seed in (1, 2):
            if not Env(seed).terms(terms, {}).zero():
                return True
        return False
    except (Unsupported, ZeroDivisionError, RecursionError):
        return None
