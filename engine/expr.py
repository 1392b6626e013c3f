"""Scalar expressions: sums of products of symbolic tensor entries, with bound-variable sums,
their normal form, and the equality prover."""
from fractions import Fraction
from itertools import permutations
from poly import P, ZERO, ONE, topoly
from ctx import cur, Split, DivSplit, Unsupported, explore, check_deadline, Ctx
import sys
import ctx as _ctx
import regions


class Sym:
    """A symbolic tensor: kind None (plain), 'sq' (square matrices, entries (..., i, j)),
    'desc'/'asc' (sequence of square matrices, entries (..., t, i, j)); rule/base for recursions."""

    def __init__(self, name, ndim, real=True, kind=None, shape=None):
        self.name = name
        self.ndim = ndim
        self.real = real
        self.kind = kind
        self.shape = shape  # tuple of P
        self.rule = None  # fn(idx) -> Expr, valid for time >= t0
        self.init = None  # fn(idx) -> Expr, valid for time < t0
        self.tpos = None
        self.t0 = ZERO
        self.ext = None  # (Sym,) larger symbol agreeing with this one in range
        self.seqkind = None
        self.unfold_ok = True
        self.later = False
        self.quad = None  # (u, v): the constant s with s^2 = u + v s
        self.note = ""


class Term:
    __slots__ = ("c", "f", "b")

    def __init__(self, c, f, b):
        self.c = c  # Fraction
        self.f = f  # dict base -> exponent P
        self.b = b  # tuple of (var, lo, hi), outermost first

    def __repr__(self):
        s = "" if self.c == 1 else "%s " % self.c
        for v, lo, hi in self.b:
            s += "S[%s=%r..<%r] " % (v, lo, hi)
        for base, e in self.f.items():
            s += show_base(base)
            if not (e.is_const() and e.cval() == 1):
                s += "^(%r)" % e
            s += " "
        return s.strip() or "1"


def show_base(b):
    k = b[0]
    if k == "app":
        return "%s%s(%s)" % (b[1], "*" if b[3] else "", ",".join(map(repr, b[2])))
    if k == "mp":
        return "%s%s^{%r}[%s;%r,%r]" % (b[1], "*" if b[6] else "", b[3], ",".join(map(repr, b[2])), b[4], b[5])
    if k == "ch":
        return "%s%s{%r..%r}[%s;%r,%r]" % (b[1], "*" if b[7] else "", b[3], b[4], ",".join(map(repr, b[2])), b[5], b[6])
    if k == "zv":
        return b[1]
    return repr(b)


def base_map(b, g):
    k = b[0]
    if k == "app":
        return ("app", b[1], tuple(g(x) for x in b[2]), b[3])
    if k == "mp":
        return ("mp", b[1], tuple(g(x) for x in b[2]), g(b[3]), g(b[4]), g(b[5]), b[6])
    if k == "ch":
        return ("ch", b[1], tuple(g(x) for x in b[2]), g(b[3]), g(b[4]), g(b[5]), g(b[6]), b[7])
    return b


def base_polys(b):
    k = b[0]
    if k == "app":
        return b[2]
    if k == "mp":
        return b[2] + (b[3], b[4], b[5])
    if k == "ch":
        return b[2] + (b[3], b[4], b[5], b[6])
    return ()


def base_key(b):
    k = b[0]
    if k == "app":
        return (k, b[1], b[3], tuple(x.key() for x in b[2]))
    if k == "mp":
        return (k, b[1], b[6], tuple(x.key() for x in b[2] + (b[3], b[4], b[5])))
    if k == "ch":
        return (k, b[1], b[7], tuple(x.key() for x in b[2] + (b[3], b[4], b[5], b[6])))
    return (k, str(b[1]), False, ())


def base_conj(b):
    s = cur().syms.get(b[1])
    k = b[0]
    if k == "zv" or (s is not None and s.real):
        return b
    if k == "app":
        return b[:3] + (not b[3],)
    if k == "mp":
        return b[:6] + (not b[6],)
    if k == "ch":
        return b[:7] + (not b[7],)
    return b


class Expr:
    __slots__ = ("t",)

    def __init__(self, terms=()):
        self.t = list(terms)

    def __add__(self, o):
        o = toexpr(o)
        if not self.t:
            return o
        if not o.t:
            return self
        return Expr(self.t + o.t)

    __radd__ = __add__

    def __neg__(self):
        return Expr([Term(-t.c, t.f, t.b) for t in self.t])

    def __sub__(self, o):
        return self + (-toexpr(o))

    def __rsub__(self, o):
        return toexpr(o) - self

    def __mul__(self, o):
        o = toexpr(o)
        out = []
        for a in self.t:
            for b in o.t:
                out.append(mul_terms(a, b))
        return Expr(out)

    __rmul__ = __mul__

    def conj(self):
        out = []
        for t in self.t:
            f = {}
            for b, e in t.f.items():
                nb = base_conj(b)
                f[nb] = f[nb] + e if nb in f else e
            out.append(Term(t.c, f, t.b))
        return Expr(out)

    def is_zero_syntactic(self):
        return not self.t

    def __repr__(self):
        return " + ".join(map(repr, self.t[:12])) + (" + ...(%d)" % len(self.t) if len(self.t) > 12 else "") if self.t else "0"


def mul_terms(a, b):
    if a.b and b.b:
        va = {x[0] for x in a.b}
        if any(x[0] in va for x in b.b):
            b = rename_binders(b)
    if not a.f:
        f = b.f
    elif not b.f:
        f = a.f
    else:
        f = dict(a.f)
        for k, e in b.f.items():
            if k in f:
                s = f[k] + e
                if s.d:
                    f[k] = s
                else:
                    del f[k]
            else:
                f[k] = e
    return Term(a.c * b.c, f, a.b + b.b)


def rename_binders(t):
    mp = {}
    nb = []
    for v, lo, hi in t.b:
        lo, hi = lo.subst(mp), hi.subst(mp)
        nv = cur().fresh("u")
        mp[v] = P.var(nv)
        nb.append((nv, lo, hi))
    return subst_term(Term(t.c, t.f, tuple(nb)), mp, binders=False)


def subst_term(t, mp, binders=True):
    f = {}
    for b, e in t.f.items():
        nb = base_map(b, lambda p: p.subst(mp))
        e = e.subst(mp)
        f[nb] = f[nb] + e if nb in f else e
    f = {k: e for k, e in f.items() if e.d}
    bs = tuple((v, lo.subst(mp), hi.subst(mp)) for v, lo, hi in t.b) if binders else t.b
    return Term(t.c, f, bs)


ZEROE = Expr([])


def const(c):
    c = Fraction(c)
    return Expr([Term(c, {}, ())]) if c else ZEROE


FLOAT = [None]  # reads a float as an exact constant


def toexpr(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if x == int(x):
            return const(int(x))
        if FLOAT[0] is not None:
            e = FLOAT[0](x)
            if e is not None:
                return e
        f = Fraction(x).limit_denominator(10 ** 6)
        if float(f) != x:
            raise Unsupported("float %r" % x)
        return const(f)
    p = getattr(x, "p", None)
    if isinstance(p, P):
        return int_expr(p)
    if isinstance(x, P):
        return int_expr(x)
    raise TypeError("not a scalar: %r" % (x,))


def int_expr(p):
    p = cur().n(p)
    out = []
    for m, c in p.d.items():
        f = {}
        for v in m:
            b = ("zv", v)
            f[b] = f[b] + 1 if b in f else ONE
        out.append(Term(Fraction(c), f, ()))
    return Expr(out)


def atom(base, e=ONE):
    return Expr([Term(Fraction(1), {base: topoly(e)}, ())])


def app(sym, idx, conj=False):
    """Entry of a symbolic tensor."""
    idx = tuple(topoly(i) for i in idx)
    assert len(idx) == sym.ndim, (sym.name, idx)
    if sym.real:
        conj = False
    c = cur()
    idx = tuple(c.n(i) for i in idx)
    if sym.kind == "sq":
        return atom(("mp", sym.name, idx[:-2], ONE, idx[-2], idx[-1], conj))
    if sym.kind == "desc":
        return atom(("ch", sym.name, idx[:-3], idx[-3], idx[-3] - 1, idx[-2], idx[-1], conj))
    if sym.kind == "asc":
        return atom(("ch", sym.name, idx[:-3], idx[-3], idx[-3] + 1, idx[-2], idx[-1], conj))
    if sym.kind == "sseq":  # scalar sequence (..., t): ratio of cumulative products
        return Expr(
            [
                Term(
                    Fraction(1),
                    {
                        ("app", sym.name, idx[:-1] + (idx[-1],), conj): ONE,
                        ("app", sym.name, idx[:-1] + (idx[-1] - 1,), conj): -ONE,
                    },
                    (),
                )
            ]
        )
    return atom(("app", sym.name, idx, conj))


def delta(i, j):
    return const(1) if cur().eq0(topoly(i) - topoly(j)) else ZEROE


LAZY_SPLIT = [False]  # a range may be split at a point that can be its first one


def Sum(lo, hi, f, depth=0):
    """sum over lo <= v < hi of f(v); case splits on v partition the range."""
    c = cur()
    lo, hi = c.n(lo), c.n(hi)
    d = hi - lo
    if d.is_const():
        if d.cval() <= 0:
            return ZEROE
        if d.cval() == 1:
            return toexpr(f(lo))
    elif not c.ge0(d):
        return ZEROE
    if depth > 12:
        raise Unsupported("range splitting does not terminate")
    lo, hi = c.n(lo), c.n(hi)
    v = c.fresh("k")
    c.bound.append((v, lo, hi))
    nb = len(c.bound)
    try:
        body = toexpr(f(P.var(v)))
        bnd = c.bound[nb - 1]
    except Split as s:
        del c.bound[nb - 1:]
        if s.var != v:
            raise
        pt = c.n(s.point)
        lo, hi = c.n(lo), c.n(hi)
        if not LAZY_SPLIT[0] or not (c.entails(pt - lo) and c.entails(hi - pt)) or c.entails(lo - pt) or c.entails(pt - hi):
            if c.ge0(lo - pt) or c.ge0(c.n(pt) - c.n(hi)):
                return Sum(lo, hi, f, depth + 1)
        return Sum(lo, pt, f, depth + 1) + Sum(pt, hi, f, depth + 1)
    except DivSplit as s:
        del c.bound[nb - 1:]
        if s.var != v:
            raise
        lo, hi = c.n(lo), c.n(hi)
        off, k = c.n(s.off), c.n(s.k)
        q0, r0 = c.divmod(lo + off, k) if (lo + off).d else (ZERO, ZERO)
        q, r = c.divmod(c.n(hi + off), c.n(k))
        k, q, r, q0, r0 = c.n(k), c.n(q), c.n(r), c.n(q0), c.n(r0)
        res = ZEROE
        at = lambda a: (lambda b: f(c.n(k) * a + b - c.n(off)))
        if r0.d:
            if not c.ge0(q - q0 - 1):
                return Sum(c.n(r0), c.n(r), at(c.n(q0)), depth + 1)
            res = res + Sum(c.n(r0), c.n(k), at(c.n(q0)), depth + 1)
            q0 = c.n(q0) + 1
        res = res + Sum(c.n(q0), c.n(q), lambda a: Sum(ZERO, c.n(k), at(a)))
        r = c.n(r)
        if r.d:
            res = res + Sum(ZERO, r, lambda b: f(c.n(k) * c.n(q) + b - c.n(off)))
        return res
    except BaseException:
        del c.bound[nb - 1:]
        raise
    del c.bound[nb - 1:]
    v, lo, hi = bnd
    return Expr([Term(t.c, t.f, ((v, lo, hi),) + t.b) for t in body.t])


def rebuild(t, fn):
    """Re-evaluate a term: fn(sub) gives the new body for the substituted binder variables."""

    def go(bs, sub):
        if not bs:
            return fn(sub)
        (v, lo, hi), rest = bs[0], bs[1:]
        return Sum(lo.subst(sub), hi.subst(sub), lambda x: go(rest, {**sub, v: x}))

    return go(t.b, {})


def term_body(t, sub, drop=()):
    f = {}
    for b, e in t.f.items():
        if b in drop:
            continue
        nb = base_map(b, lambda p: p.subst(sub))
        e = e.subst(sub)
        f[nb] = f[nb] + e if nb in f else e
    f = {k: e for k, e in f.items() if e.d}
    return Expr([Term(t.c, f, ())])


# ---------------------------------------------------------------- simplify
def _norm_polys(t):
    c = cur()
    if not c.sub:
        return t
    return subst_term(t, c.sub)


def _const1(e):
    return e.is_const() and e.cval() == 1


def with_binders(t, fn):
    """Evaluate fn() with the binders of t known to the context."""
    c = cur()
    n = len(c.bound)
    c.bound.extend(t.b)
    try:
        return fn()
    finally:
        del c.bound[n:]


def quad_power(t, b, e, uv):
    u, v = uv
    p, q = Fraction(1), Fraction(0)
    for _ in range(abs(int(e))):
        if e > 0:
            # (p + q s) s
            p, q = q * u, p + q * v
        else:
            # 1 / s = (s - v) / u:  p (s - v) / u + q
            p, q = q - p * v / u, p / u
    rest = {k: x for k, x in t.f.items() if k != b}
    return [Term(t.c * p, rest, t.b), Term(t.c * q, {**rest, b: ONE}, t.b)]


def simp_term(t):
    """One rewriting step; returns None when t is stable, else a list of terms."""
    c = cur()
    # order binders by dependency
    for k, (v, lo, hi) in enumerate(t.b):
        d = hi - lo
        if d.is_const():
            if d.cval() <= 0:
                return []
            if d.cval() == 1:
                rest = t.b[:k] + t.b[k + 1:]
                return [subst_term(Term(t.c, t.f, rest), {v: lo})]
    used = set()
    for b, e in t.f.items():
        for p in base_polys(b):
            used |= p.vars()
        used |= e.vars()
    for v, lo, hi in t.b:
        used |= lo.vars() | hi.vars()
    for k, (v, lo, hi) in enumerate(t.b):
        if v not in used and ("zv", v) not in t.f:
            rest = t.b[:k] + t.b[k + 1:]
            # only when the length does not depend on later binders (it cannot)
            return (Expr([Term(t.c, t.f, rest)]) * int_expr_in(hi - lo)).t
    for v, lo, hi in t.b:
        if ("zv", v) in t.f:
            break
    for b, e in t.f.items():
        k = b[0]
        if k == "mp" and not b[3].d:
            return rebuild(t, lambda s: term_body(t, s, (b,)) * delta(b[4].subst(s), b[5].subst(s))).t
        if k == "ch" and b[3] == b[4]:
            return rebuild(t, lambda s: term_body(t, s, (b,)) * delta(b[5].subst(s), b[6].subst(s))).t
        if k in ("app", "mp", "ch"):
            sym = c.syms.get(b[1])
            if sym is None:
                continue
            if sym.quad is not None and e.is_const() and e.cval() not in (0, 1):
                # s^2 = u + v s
                return quad_power(t, b, e.cval(), sym.quad)
            if k == "mp" and b[3] != ONE and one_by_one(sym):
                # a power of a 1 x 1 matrix is a power of its entry
                f = dict(t.f)
                del f[b]
                nb = b[:3] + (ONE, ZERO, ZERO, b[6])
                f[nb] = f[nb] + e * b[3] if nb in f else e * b[3]
                if not f[nb].d:
                    del f[nb]
                return [Term(t.c, f, t.b)]
            if k == "ch" and _const1(e) and one_by_one(sym):
                o = next((b2 for b2, e2 in t.f.items() if b2 is not b and b2[0] == "ch" and b2[1] == b[1] and b2[2] == b[2]
                          and b2[7] == b[7] and _const1(e2) and b[4] == b2[3]), None)
                if o is not None:
                    f = {q: w for q, w in t.f.items() if q is not b and q is not o}
                    nb = b[:4] + (o[4], ZERO, ZERO, b[7])
                    f[nb] = f[nb] + 1 if nb in f else ONE
                    return [Term(t.c, f, t.b)]
            if sym.ext is not None:
                nb = (k, sym.ext.name) + b[2:]
                f = dict(t.f)
                del f[b]
                f[nb] = f[nb] + e if nb in f else e
                return [Term(t.c, f, t.b)]
            if k == "app" and b[1] in c.rel and _const1(e):
                fn = c.rel[b[1]]
                return rebuild(t, lambda s: term_body(t, s, (b,)) * maybe_conj(fn(tuple(x.subst(s) for x in b[2])), b[3])).t
            if k == "app" and sym.init is not None and _const1(e):
                tm = b[2][sym.tpos]
                if with_binders(t, lambda: c.entails(sym.t0 - 1 - tm)):
                    return rebuild(t, lambda s: term_body(t, s, (b,)) * maybe_conj(sym.init(tuple(x.subst(s) for x in b[2])), b[3])).t
    r = contract(t)
    if r is not None:
        return r
    return scalar_pairs(t)


def scalar_pairs(t):
    """Relations of matrix products for 1 x 1 matrices (no sum is left)."""
    c = cur()
    if not c.syms.get("#pairs"):
        return None
    fs = [b for b, e in t.f.items() if b[0] == "app" and len(b[2]) >= 2 and e.is_const() and e.cval() >= 1]
    for X in fs:
        for Y in fs:
            h = c.syms.get(("pair", X[1], Y[1]))
            if h is None or X is Y or X[3] != Y[3] or not one_by_one(c.syms[X[1]]):
                continue
            if X[2][:-2] != Y[2][:-2]:
                continue
            f = dict(t.f)
            for b in (X, Y):
                f[b] = f[b] - 1
                if not f[b].d:
                    del f[b]
            t2 = Term(t.c, f, t.b)
            return rebuild(t2, lambda s: term_body(t2, s) * h(base_map(X, lambda p: p.subst(s)), base_map(Y, lambda p: p.subst(s)))).t
    return None


def one_by_one(sym):
    if sym.shape is None:
        return False
    m = cur().n(sym.shape[-1])
    return m.is_const() and m.cval() == 1


def int_expr_in(p):
    """Integer polynomial as an expression without applying substitutions for bound variables."""
    out = []
    for m, cc in p.d.items():
        f = {}
        for v in m:
            b = ("zv", v)
            f[b] = f[b] + 1 if b in f else ONE
        out.append(Term(Fraction(cc), f, ()))
    return Expr(out)


def maybe_conj(e, cj):
    e = toexpr(e)
    return e.conj() if cj else e


def contract(t):
    c = cur()
    for bi, (v, lo, hi) in enumerate(t.b):
        if any(l2.has(v) or h2.has(v) for k2, (v2, l2, h2) in enumerate(t.b) if k2 != bi):
            continue
        occ = [b for b in t.f if any(p.has(v) for p in base_polys(b))]
        if any(e.has(v) for e in t.f.values()) or ("zv", v) in t.f:
            continue
        if len(occ) != 2 or not all(_const1(t.f[b]) for b in occ):
            continue
        x = P.var(v)
        for X, Y in ((occ[0], occ[1]), (occ[1], occ[0])):
            new = compose(X, Y, x)
            if new is None:
                continue
            size = c.n(c.syms[X[1]].shape[-1])
            rest = t.b[:bi] + t.b[bi + 1:]
            f = {k: e for k, e in t.f.items() if k != X and k != Y}
            f[new] = f[new] + 1 if new in f else ONE
            out = [Term(t.c, f, rest)]
            left = c.n(lo)
            right = size - hi
            if left.d or right.d:
                if not (left.is_const() and right.is_const() and left.cval() + right.cval() <= 3):
                    continue
                for q in range(left.cval()):
                    out.append(subst_term(Term(-t.c, t.f, rest), {v: P.const(q)}))
                for q in range(right.cval()):
                    out.append(subst_term(Term(-t.c, t.f, rest), {v: hi + q}))
            return out
        # user relations (inverse pairs, eigen relations)
        for X, Y in ((occ[0], occ[1]), (occ[1], occ[0])):
            h = c.syms.get(("pair", X[1], Y[1]))
            if h is None or X[0] != "app" or Y[0] != "app":
                continue
            if X[2][-1] != x or Y[2][-2] != x:
                continue
            if any(p.has(v) for p in X[2][:-1]) or any(p.has(v) for p in Y[2][:-2]) or Y[2][-1].has(v):
                continue
            if X[3] != Y[3]:
                continue
            size = c.n(c.syms[X[1]].shape[-1])
            left, right = c.n(lo), size - hi
            if left.d or right.d:
                if not (left.is_const() and right.is_const() and left.cval() + right.cval() <= 3):
                    continue
            rest = t.b[:bi] + t.b[bi + 1:]
            t2 = Term(t.c, {k: e for k, e in t.f.items() if k != X and k != Y}, rest)
            if X[2][:-2] != Y[2][:-2]:
                continue
            out = list(rebuild(t2, lambda s: term_body(t2, s) * h(base_map(X, lambda p: p.subst(s)), base_map(Y, lambda p: p.subst(s)))).t)
            for q in range(left.cval() if left.d else 0):
                out.append(subst_term(Term(-t.c, t.f, rest), {v: P.const(q)}))
            for q in range(right.cval() if right.d else 0):
                out.append(subst_term(Term(-t.c, t.f, rest), {v: hi + q}))
            return out
    return None


def compose(X, Y, x):
    """X[.., i, x] Y[.., x, j] of the same matrix family, composable."""
    if X[0] == "mp" and Y[0] == "mp" and X[1] == Y[1] and X[2] == Y[2] and X[6] == Y[6]:
        if X[5] == x and Y[4] == x and not any(p.has_any(x) for p in ()):
            vx = next(iter(x.vars()))
            if X[4].has(vx) or Y[5].has(vx) or X[3].has(vx) or Y[3].has(vx) or any(p.has(vx) for p in X[2]):
                return None
            return ("mp", X[1], X[2], X[3] + Y[3], X[4], Y[5], X[6])
    if X[0] == "ch" and Y[0] == "ch" and X[1] == Y[1] and X[2] == Y[2] and X[7] == Y[7]:
        if X[6] == x and Y[5] == x and X[4] == Y[3]:
            vx = next(iter(x.vars()))
            if any(p.has(vx) for p in X[2] + (X[3], X[4], X[5], Y[4], Y[6])):
                return None
            return ("ch", X[1], X[2], X[3], Y[4], X[5], Y[6], X[7])
    return None


# ----------------------------------------------------------- canonical form
def _toposort(bs):
    bs = list(bs)
    out = []
    names = {b[0] for b in bs}
    while bs:
        for k, (v, lo, hi) in enumerate(bs):
            dep = (lo.vars() | hi.vars()) & names
            if not (dep - {o[0] for o in out}):
                out.append(bs.pop(k))
                break
        else:
            raise Unsupported("cyclic sum bounds")
    return tuple(out)


def _occurrences(t, v, allv):
    """(signature, component polynomial) of occurrences of v with unit coefficient."""
    out = []
    for b, e in t.f.items():
        sig0 = (b[0], str(b[1]))
        for pos, p in enumerate(base_polys(b)):
            c = p.lin_coef(v)
            if c in (1, -1):
                nb = len(p.vars() & allv)
                out.append(((nb, sig0, pos, len(p.d)), p, c))
        c = e.lin_coef(v)
        if c in (1, -1):
            out.append(((len(e.vars() & allv) + 50, sig0, 99, len(e.d)), e, c))
    return out


def fac_key(f):
    return tuple(sorted((base_key(b), e.key()) for b, e in f.items()))


def canon(t):
    """Rename and shift the bound variables canonically. Returns (key_factors, binders, Term)."""
    n = len(t.b)
    if n == 0:
        return fac_key(t.f), (), t
    best = None
    names = [b[0] for b in t.b]
    perms = permutations(range(n)) if n <= 3 else [tuple(range(n))]
    for perm in perms:
        states = [t]
        for k, bi in enumerate(perm):
            v = names[bi]
            new = "%" + str(k)
            nxt = []
            for s in states:
                allv = {b[0] for b in s.b}
                occ = _occurrences(s, v, allv)
                u = P.var(new)
                if not occ:
                    mp = {v: u}
                    f2 = subst_term(s, mp)
                    bs = tuple((new if w == v else w, lo, hi) for w, lo, hi in f2.b)
                    nxt.append(Term(s.c, f2.f, bs))
                    continue
                m = min(o[0] for o in occ)
                comps = []
                for sig, p, cc in occ:
                    if sig == m and (p, cc) not in comps:
                        comps.append((p, cc))
                for p, cc in comps[:3]:
                    rest = p - P({(v,): cc})
                    val = u - rest if cc == 1 else rest - u
                    w, lo, hi = next(b for b in s.b if b[0] == v)
                    if cc == 1:
                        nlo, nhi = lo + rest, hi + rest
                    else:
                        nlo, nhi = rest - hi + 1, rest - lo + 1
                    s2 = subst_term(s, {v: val})
                    bs = tuple(
                        (new, nlo, nhi) if w2 == v else (w2, lo2, hi2) for w2, lo2, hi2 in s2.b
                    )
                    nxt.append(Term(s.c, s2.f, bs))
            states = nxt[:6]
        for s in states:
            fk = fac_key(s.f)
            bk = tuple(sorted((v, lo.key(), hi.key()) for v, lo, hi in s.b))
            if best is None or (fk, bk) < best[0]:
                best = ((fk, bk), s)
    (fk, bk), s = best
    return fk, bk, Term(s.c, s.f, tuple(sorted(s.b, key=lambda b: b[0])))


def normalize(e, budget=4000):
    """Normal form of an expression: a list of terms (empty list means identically zero)."""
    pend = [t for t in e.t if t.c]
    acc = {}
    steps = 0
    for _round in range(12):
        while pend:
            steps += 1
            if steps > budget:
                raise Unsupported("normalisation budget exceeded")
            if steps % 50 == 0:
                check_deadline()
            t = _norm_polys(pend.pop())
            if not t.c:
                continue
            if t.b:
                t = Term(t.c, t.f, _toposort(t.b))
            r = simp_term(t)
            if r is not None:
                pend.extend(r)
                continue
            fk, bk, s = canon(t)
            key = (fk, bk)
            if key in acc:
                c = acc[key].c + s.c
                if c:
                    acc[key] = Term(c, s.f, s.b)
                else:
                    del acc[key]
            else:
                acc[key] = s
        # substitutions may have changed while simplifying
        c = cur()
        if c.sub:
            stale = [k for k, t in acc.items() if _stale(t, c.sub)]
            if stale:
                for k in stale:
                    pend.append(fresh_binders(acc.pop(k)))
                continue
        pend = merge_ranges(acc)
        if not pend:
            break
    return list(acc.values())


def _stale(t, sub):
    vs = set()
    for b, e in t.f.items():
        for p in base_polys(b):
            vs |= p.vars()
        vs |= e.vars()
        if b[0] == "zv":
            vs.add(b[1])
    for _, lo, hi in t.b:
        vs |= lo.vars() | hi.vars()
    return any(v in sub for v in vs)


def fresh_binders(t):
    if not t.b:
        return t
    return rename_fresh(t)[0]


def rename_fresh(t):
    mp = {v: P.var(cur().fresh("w")) for v, _, _ in t.b}
    f = subst_term(t, mp)
    return Term(t.c, f.f, _toposort(tuple((next(iter(mp[v].vars())), lo, hi) for v, lo, hi in f.b))), mp


def merge_ranges(acc):
    """Combine sums with the same body over different ranges; returns terms to re-simplify."""
    groups = {}
    for key, t in acc.items():
        for k, (v, lo, hi) in enumerate(t.b):
            if any(l2.has(v) or h2.has(v) for k2, (_, l2, h2) in enumerate(t.b) if k2 != k):
                continue
            others = tuple((w, l2.key(), h2.key()) for k2, (w, l2, h2) in enumerate(t.b) if k2 != k)
            groups.setdefault((key[0], v, others), []).append(key)
    for (fk, v, others), keys in groups.items():
        if len(keys) < 2:
            continue
        ts = [acc[k] for k in keys]
        ends = {}
        for t in ts:
            lo, hi = next((lo, hi) for w, lo, hi in t.b if w == v)
            ends[hi] = ends.get(hi, 0) + t.c
            ends[lo] = ends.get(lo, 0) - t.c
        ends = {p: c for p, c in ends.items() if c}
        classes = []
        for p, c in sorted(ends.items(), key=lambda x: x[0].key()):
            for cl in classes:
                d = p - cl[0][0]
                if d.is_const():
                    cl.append((p, d.cval(), c))
                    break
            else:
                classes.append([(p, 0, c)])
        nets = []
        singles = []
        for cl in classes:
            m = min(o for _, o, _ in cl)
            rep = cl[0][0] + m
            cl = [(o - m, c) for _, o, c in cl]
            net = sum(c for _, c in cl)
            mx = max(o for o, _ in cl)
            if mx > 24:
                singles = None
                break
            for x in range(mx):
                cc = sum(c for o, c in cl if o > x)
                if cc:
                    singles.append((rep + x, cc))
            if net:
                nets.append((rep, net))
        if singles is None:
            continue
        nsum = max(0, len(nets) - 1)
        if nsum >= len(ts):
            continue
        tb = ts[0]
        rest = tuple(b for b in tb.b if b[0] != v)
        out = []
        for p, cc in singles:
            out.append(subst_term(Term(cc, tb.f, rest), {v: p}))
        ok = True
        if nets:
            r0, _ = nets[0]
            for p, cc in nets[1:]:
                c = cur()
                if c.entails(p - r0):
                    out.append(Term(cc, tb.f, rest + ((v, r0, p),)))
                elif c.entails(r0 - p):
                    out.append(Term(-cc, tb.f, rest + ((v, p, r0),)))
                else:
                    ok = False
        if not ok:
            continue
        for k in keys:
            del acc[k]
        return [fresh_binders(t) for t in out]
    return []


# ------------------------------------------------------------------ prover
def rec_apps(terms):
    c = cur()
    out = []
    for t in terms:
        bnd = {b[0] for b in t.b}
        for b, e in t.f.items():
            if b[0] != "app":
                continue
            s = c.syms.get(b[1])
            if s is not None and s.rule is not None and _const1(e):
                out.append((s, b, t, bnd))
    return out


def unfold(terms, pred):
    """Unfold the recursion symbols selected by pred(sym, base, term)."""
    out = []
    hit = False
    c = cur()
    for t in terms:
        done = False
        for b, e in list(t.f.items()):
            if b[0] != "app" or not _const1(e):
                continue
            s = c.syms.get(b[1])
            if s is None or s.rule is None or not pred(s, b, t):
                continue
            out.extend(
                rebuild(t, lambda sb: term_body(t, sb, (b,)) * maybe_conj(s.rule(tuple(x.subst(sb) for x in b[2])), b[3])).t
            )
            done = hit = True
            break
        if not done:
            out.append(t)
    return out, hit


def prove_zero(e, depth=12):
    """True when e is identically zero under the current path; may fork the path.
    Otherwise returns the residual terms."""
    e = toexpr(e)
    terms = normalize(e)
    budget = depth
    while terms:
        if zero_when_expanded(terms):
            return True
        terms = regions.drop(sys.modules[__name__], terms)
        if not terms:
            return True
        if budget <= 0:
            return terms
        budget -= 1
        c = cur()
        apps = rec_apps(terms)
        choice = None
        byn = {}
        for s, b, t, bnd in apps:
            tm = b[2][s.tpos]
            if not s.unfold_ok:
                continue
            byn.setdefault(s.name, []).append((tm, b, t, bnd))
        # 1. two instants of the same symbol a constant apart: unfold the later one
        for name, lst in byn.items():
            s = c.syms[name]
            for tm, b, t, bnd in lst:
                if tm.vars() & bnd:
                    continue
                for tm2, b2, t2, bnd2 in lst:
                    d = tm - tm2
                    if d.is_const() and d.cval() > 0:
                        if choice is None or (choice[0] == name and (tm - choice[1]).is_const() and (tm - choice[1]).cval() > 0):
                            choice = (name, tm)
        # 1b. two instants of which one is later (symbols marked for it)
        if choice is None:
            for name, lst in byn.items():
                if not c.syms[name].later:
                    continue
                free_ = [tm for tm, b, t, bnd in lst if not tm.vars() & bnd]
                for tm in free_:
                    if any(not (tm - u).is_const() and c.entails(tm - u - 1) for u in free_) and (choice is None or c.entails(tm - choice[1])):
                        choice = (name, tm)
        # 2. an instant next to the start
        if choice is None:
            for name, lst in byn.items():
                s = c.syms[name]
                for tm, b, t, bnd in lst:
                    d = tm - s.t0
                    if d.is_const() and 0 <= d.cval() <= 3:
                        choice = (name, tm)
        if choice is None:
            # 3. relate different symbols, then unfold anything at most once per round
            if try_relations(terms):
                terms = normalize(Expr([fresh_binders(t) for t in terms]))
                continue
            for name, lst in byn.items():
                s = c.syms[name]
                for tm, b, t, bnd in lst:
                    if tm.vars() & bnd:
                        continue
                    if choice is None:
                        choice = (name, tm)
            budget -= 3
        if choice is None:
            # 4. a whole sum over instants of one symbol: unfold under the sum, shallowest sum first
            tgt = None
            for name, lst in byn.items():
                for tm, b, t, bnd in lst:
                    if len(t.b) <= 2 and (tgt is None or len(t.b) < len(tgt[1].b)) and under_sum_after_start(t, tm, c.syms[name]):
                        tgt = (b, t)
            if tgt is None or budget <= 0:
                return terms
            budget -= 2
            b0, t0_ = tgt
            t1, mp = rename_fresh(t0_)
            b1 = base_map(b0, lambda p: p.subst(mp))
            new, hit = unfold([t1], lambda s2, b2, t2: b2 == b1)
            if not hit:
                return terms
            terms = normalize(Expr([fresh_binders(_norm_polys(t)) for t in terms if t is not t0_] + list(new)))
            continue
        name, tm = choice
        s = c.syms[name]
        if not c.ge0(tm - s.t0):
            terms = normalize(Expr([fresh_binders(t) for t in terms]))
            continue
        tm = c.n(tm)
        terms = [fresh_binders(_norm_polys(t)) for t in terms]
        new, hit = unfold(terms, lambda s2, b2, t2: s2.name == name and b2[2][s2.tpos] == tm)
        if not hit:
            terms = normalize(Expr(new))
            continue
        terms = normalize(Expr(new))
    return True


def under_sum_after_start(t, tm, s):
    """Is the instant tm at or after the start of s for all values of the sum's variables?"""
    c = cur()
    n = len(c.bound)
    c.bound.extend(t.b)
    try:
        return c.entails(tm - s.t0)
    finally:
        del c.bound[n:]


def zero_when_expanded(terms):
    """Sums over few known values written out."""
    if len(terms) < 2 or not any((hi - lo).is_const() for t in terms for _, lo, hi in t.b):
        return False
    work, out = list(terms), []
    while work:
        t = work.pop()
        for k, (v, lo, hi) in enumerate(t.b):
            if (hi - lo).is_const() and (hi - lo).cval() <= 4:
                rest = t.b[:k] + t.b[k + 1:]
                for q in range((hi - lo).cval()):
                    work.append(fresh_binders(subst_term(Term(t.c, t.f, rest), {v: lo + q})))
                break
        else:
            out.append(t)
        if len(work) + len(out) > 120:
            return False
    return not normalize(Expr(out))


RELATION_TRIED = {}


def try_relations(terms):
    """Merge recursion symbols of equal shape: prove X == Y by induction, then rewrite X -> Y."""
    c = cur()
    names = []
    for s, b, t, bnd in rec_apps(terms):
        if s.name not in names and s.name not in c.rel:
            names.append(s.name)
    for i in range(len(names)):
        for j in range(i):
            a, b = c.syms[names[i]], c.syms[names[j]]
            if a.ndim != b.ndim or a.shape is None or b.shape is None or a.tpos != b.tpos:
                continue
            k = (a.name, b.name)
            if k in c.syms.get("#tried", ()):
                continue
            c.syms["#tried"] = c.syms.get("#tried", ()) + (k,)
            if relate(a, lambda idx, b=b: app(b, idx)):
                return True
    return False


def relate(sym, cand):
    """Prove by induction over time that sym(idx) == cand(idx) for all idx in range; on success
    rewrite sym -> cand from now on."""
    c = cur()
    if sym.name in c.rel:
        return False
    if not forall_zero(sym.shape, lambda idx: _base_goal(sym, cand, idx), sym, base=True):
        return False
    if not forall_zero(sym.shape, lambda idx: _step_goal(sym, cand, idx), sym, base=False):
        return False
    c.rel[sym.name] = cand
    return True


def _base_goal(sym, cand, idx):
    return toexpr(cand(idx)) - toexpr(sym.init(idx))


def _step_goal(sym, cand, idx):
    c = cur()
    r = toexpr(sym.rule(idx))
    # replace sym in the rule by the candidate (induction hypothesis: all earlier instants)
    c.rel[sym.name] = cand
    return toexpr(cand(idx)) - r


def forall_zero(shape, goal, sym=None, base=False):
    """Nested proof for generic indices within shape. The time axis (sym.tpos): the start for
    base, any t >= t0 for the step."""
    saved = cur()

    def run():
        c = cur()
        idx = []
        for k, s in enumerate(shape):
            if sym is not None and k == sym.tpos:
                w = getattr(sym, "window", 1)
                if base:
                    if w == 1:
                        idx.append(c.n(sym.t0) - 1)
                    else:
                        v = c.newvar(c.fresh("i"))
                        # any instant of the initial window
                        c.add_fact(c.n(sym.t0) - 1 - v)
                        c.add_fact(v - c.n(sym.t0) + topoly(w))
                        idx.append(v)
                    continue
                v = c.newvar(c.fresh("i"))
                c.add_fact(v - c.n(sym.t0))
                c.add_fact(c.n(s) - 1 - v)
                idx.append(v)
                continue
            v = c.newvar(c.fresh("i"), 0)
            c.add_fact(c.n(s) - 1 - v)
            idx.append(v)
        return prove_zero(goal(tuple(idx)))

    try:
        res = explore(run, saved)
    except (Split, DivSplit) as s:
        raise Unsupported("unexpected split in a nested proof: %r" % (s,))
    for c, r in res:
        if r is not True:
            if not c.contradictory():
                LAST_FAIL[0] = (c, r)
                return False
    return True


LAST_FAIL = [None]
