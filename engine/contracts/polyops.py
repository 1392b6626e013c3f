"""Contracts of the polynomial helpers (C23): coefficient vectors, highest degree first."""
from spec import *
import ctypes
import sys
import load
import numev

OBLIGATIONS = []


def add(name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=["C23"], name=name, function=function, fn=fn, **k))


class Positions:
    """What torch.nonzero returns for a vector with its first non-zero entry at a known place."""

    def __init__(self, first, last, count):
        self.first, self.last, self.count = first, last, count

    def squeeze(self, *a):
        return self

    def flatten(self, *a):
        return self

    def numel(self):
        return self.count

    def view(self, *a):
        return self

    reshape = view

    def __len__(self):
        raise Unsupported("len of positions")

    @property
    def shape(self):
        return (self.count, 1)

    def size(self, d=0):
        if d != 0:
            raise Unsupported("positions")
        return self.count

    def __getitem__(self, k):
        if self.count == 0:
            raise T.TorchError("index out of range")
        if isinstance(k, tuple):
            if len(k) != 2 or k[1] != 0:
                raise Unsupported("positions")
            k = k[0]
        if k == 0:
            return self.first
        if k == -1 and self.last is not None:
            return self.last
        raise Unsupported("positions")


class Poly:
    """z leading zeros, then n coefficients of which the first is not zero (and w trailing zeros); n == 0: no coefficient
    at all (the zero polynomial of length z)."""

    known = []

    def __init__(self, name, kind, real=True, trailing=False):
        c = cur()
        self.z = size("z" + name, 0) if kind == "any" else (size("z" + name) if kind == "zero" else 0)
        self.n = 0 if kind == "zero" else size("n" + name)
        self.w = size("w" + name, 0) if trailing else 0
        self.trailing = trailing
        self.total = self.z + self.n + self.w
        zp, np_ = T.P_(self.z), T.P_(self.n)
        if kind == "zero":
            self.t = T.Tensor((zp,), lambda i: ZEROE, real)
        elif trailing or kind == "any":
            s = arg(name, (self.n,), real)
            f = T.freeze(s)

            def at(i):
                if not cur().ge0(i[0] - zp):
                    return ZEROE
                if trailing and cur().ge0(i[0] - zp - np_):
                    return ZEROE
                return f((i[0] - zp,))

            self.t = T.Tensor((T.P_(self.total),), at, real)
        else:
            self.t = arg(name, (self.n,), real)
        self.t.st.arg = True
        g = T.freeze(self.t)
        self.f = lambda i: toexpr(g((i,)))
        Poly.known.append((self, g))

    def co(self, j):
        """coefficient j of the trimmed polynomial, zero outside"""
        c = cur()
        if not c.ge0(j) or not c.ge0(T.P_(self.n) - 1 - j):
            return ZEROE
        return self.f(j + T.P_(self.z))




def nonzero(t):
    if len(t.sh) != 1:
        raise Unsupported("nonzero")
    for p, g in Poly.known:
        if cur().eq0(t.sh[0] - T.P_(p.total)) and X.forall_zero(t.sh, lambda i: t.at(i) - toexpr(g(i))):
            if isinstance(p.n, int) and p.n == 0:
                return Positions(None, None, 0)
            one = cur().eq0(T.P_(p.total) - 1)
            last = p.z + p.n - 1 if p.trailing or one else None
            return Positions(p.z, last, mk(cur().newvar(cur().fresh("count"), 1)))
    raise Unsupported("nonzero of something computed")


def load_module(name="poly"):
    Poly.known = []
    m = load.Loader().module("philtorch.prototype." + name)
    m.torch.nonzero = nonzero
    m.int = lambda v: v if isinstance(v, T.SymInt) else int(v)
    return m


def trimmed(p, r, what, real=True):
    """r is p without its leading zeros (the zero polynomial: one zero)"""
    if isinstance(p.n, int) and p.n == 0:
        ensures(r, (1,), lambda i: ZEROE, what, real)
    elif not cur().ge0(T.P_(p.total) - 2):
        ensures(r, (1,), lambda i: p.f(ZERO), what, real)
    else:
        ensures(r, (p.n,), lambda i: p.co(i[0]), what, real)


def ob_trim(kind, real):
    def run():
        m = load_module()
        p = Poly("p", kind, real)
        trimmed(p, m.trim_zeros(p.t), "the same coefficients without the leading zeros", real)

    return run


def ob_sum(sign, rel, real):
    def run():
        m = load_module()
        na = size("na")
        nb = na + size("d") if rel == "<" else na
        if rel == ">":
            na = nb + size("d")
        a, b = arg("a", (na,), real), arg("b", (nb,), real)
        n = nb if rel == "<" else na
        fa, fb = T.freeze(a), T.freeze(b)
        r = (m.polyadd if sign > 0 else m.polysub)(a, b)

        def want(i):
            ja, jb = i[0] - T.P_(n) + T.P_(na), i[0] - T.P_(n) + T.P_(nb)
            va = toexpr(fa((ja,))) if cur().ge0(ja) else ZEROE
            vb = toexpr(fb((jb,))) if cur().ge0(jb) else ZEROE
            return va + vb if sign > 0 else va - vb

        ensures(r, (n,), want, "coefficients of the %s, the lowest aligned" % ("sum" if sign > 0 else "difference"), real)

    return run


def product(pa, pb, r, what, real=True):
    """r is the product of the trimmed polynomials"""
    za, zb = isinstance(pa.n, int) and pa.n == 0, isinstance(pb.n, int) and pb.n == 0
    na, nb = (T.ONE if za else T.P_(pa.n)), (T.ONE if zb else T.P_(pb.n))
    n = na + nb - 1
    if za or zb:
        ensures(r, (n,), lambda i: ZEROE, what, real)
        return

    def want(i):
        def body(j):
            v = pb.co(i[0] - j)
            return ZEROE if v is ZEROE else pa.co(j) * v

        return Sum(ZERO, na, body)

    ensures(r, (n,), want, what, real)


def ob_mul(ka, kb, real):
    def run():
        m = load_module()
        pa, pb = Poly("a", ka, real), Poly("b", kb, real)
        product(pa, pb, m.polymul(pa.t, pb.t), "coefficients of the product: sum_j a_j b_(i-j)", real)

    return run


def ob_smul(k):
    def run():
        m = load_module()
        known = [(arg("p%d" % j, (size("n%d" % j),)), [j]) for j in range(k)]
        sent = [t for t, _ in known]
        top = [True]
        real = m.polysmul

        def which(x):
            """the polynomials whose product x is"""
            for t, ix in known:
                if t is x:
                    return ix
            for t, ix in known:
                if len(t.sh) == len(x.sh) and t.csh == x.csh and X.forall_zero(t.sh, lambda i: t.at(i) - x.at(i)):
                    return ix
            raise Unsupported("polysmul works with something else")

        def product_of(ix):
            t = arg("prod" + "_".join(map(str, sorted(ix))), (size("l"),))
            known.append((t, ix))
            return t

        def rest(*ps):
            if top:
                top.clear()
                return real(*ps)
            if not 0 < len(ps) < k:
                raise Unproved("the recursion is on fewer polynomials")
            return product_of(sum(map(which, ps), []))

        m.polysmul, m.polymul = rest, lambda a, b: product_of(which(a) + which(b))
        r = m.polysmul(*sent)
        if sorted(which(r)) != list(range(k)):
            raise Refuted("polysmul: product of the polynomials %r" % (which(r),))
        ENSURES[0] += 1

    return run


def ob_val(kind, xk, real):
    def run():
        m = load_module()
        p = Poly("p", kind, real)
        sh = (size("K"),) if xk else ()
        x = arg("x", sh, real)
        fx = T.freeze(x)
        r = m.polyval(p.t, x)
        n = T.P_(p.n)
        for s in recs_named("acc"):
            relate(s, lambda i: Sum(ZERO, i[-1] + 2, lambda j: p.co(j) * T.int_power(toexpr(fx(i[:-1])), i[-1] + 1 - j)), "the value of the first coefficients")
        if isinstance(p.n, int) and p.n == 0:
            ensures(r, sh, lambda i: ZEROE, "value of the zero polynomial", real)
        else:
            ensures(r, sh, lambda i: Sum(ZERO, n, lambda j: p.co(j) * T.int_power(toexpr(fx(i)), n - 1 - j)), "sum_j p_j x^(n-1-j)", real)

    return run


def ob_der(kind, mk_, real):
    def run():
        m = load_module()
        p = Poly("p", kind, real)
        if mk_ == 0:
            r = m.polyder(p.t, 0)
            ensures(r, (p.total,), lambda i: p.f(i[0]), "derivative of order 0", real)
            return
        k = 1 if mk_ == 1 else 1 + size("k")
        one = m.polyder
        calls = []

        def again(q, o=1):
            if calls:
                raise Unsupported("several recursive calls")
            n = T.P_(p.n)
            if not cur().eq0(T.P_(o) - T.P_(k) + 1):
                raise Unproved("order of the remaining derivative")
            same_shape(q, (n - 1,), "first derivative")
            ensures(q, (n - 1,), lambda i: p.co(i[0]) * X.int_expr_in(n - 1 - i[0]), "coefficients of the first derivative", real)
            t = arg("deriv", (size("nd"),), real)
            calls.append(t)
            return t

        m.polyder = again
        r = one(p.t, k) if mk_ != 1 else one(p.t)
        if isinstance(p.n, int) and p.n == 0 or not cur().ge0(T.P_(p.n) - 2):
            ensures(r, (1,), lambda i: ZEROE, "derivative of a constant", real)
            return
        if not calls:
            raise Unproved("no further derivative")
        ensures(r, calls[0].sh, lambda i: toexpr(calls[0].at(i)), "the remaining derivatives of the first one", real)

    return run


def set_local(frame, name, value):
    """replaces a local variable of the running function"""
    frame.f_locals[name] = value
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


class Small:
    """torch.abs(r[0]) of the loop that drops small leading coefficients of the remainder. Invariant: r is the remainder
    without its first d coefficients, all of them small; the loop is entered once, in an arbitrary such state."""

    def __init__(self):
        self.d, self.whole, self.again = ZERO, None, False

    def __call__(self, v):
        frame = sys._getframe(1)
        if not isinstance(v, T.Tensor) or len(v.sh) != 0:
            raise Unsupported("size of something else")
        names = [k for k, x in frame.f_locals.items() if isinstance(x, T.Tensor) and len(x.sh) == 1 and x.st is v.st]
        if len(names) != 1:
            raise Unsupported("no one variable holds the remainder")
        r = frame.f_locals[names[0]]
        if CONCRETE[0] is not None:
            # entries are generic: only an exact zero is small
            return Answer(numev.nonzero(toexpr(v.at(())).t) is False, self)
        if not X.forall_zero((), lambda i: v.at(()) - r.at((ZERO,))):
            raise Unsupported("not the leading coefficient of the remainder")
        c = cur()
        if self.whole is None:
            f, n = T.freeze(r), c.n(r.sh[0])
            self.whole = (f, n)
            d = c.newvar(c.fresh("drop"), 0)
            requires(c.ge0(n - 1 - d))
            self.d = d
            new = T.Tensor((c.n(n - d),), lambda i: toexpr(f((i[0] + d,))), r._real)
            set_local(frame, names[0], new)
            self.again = not c.ge0(c.newvar(c.fresh("stop"), 0) - 1)
            return Answer(self.again, self)
        if not self.again:
            raise Unsupported("more than one loop")
        f, n = self.whole
        if not c.eq0(r.sh[0] - (n - self.d - 1)) or not X.forall_zero(r.sh, lambda i: r.at(i) - toexpr(f((i[0] + self.d + 1,)))):
            raise Unproved("loop invariant: the remainder without its first coefficients")
        ENSURES[0] += 1
        raise Infeasible()


class Answer:
    def __init__(self, v, owner):
        self.v, self.owner = v, owner

    def __lt__(self, eps):
        if not (isinstance(eps, float) and 0 < eps <= 1e-6):
            raise Unproved("a coefficient of size %r is dropped" % (eps,))
        return self.v

    def __getattr__(self, n):
        raise Unsupported("comparison of a coefficient")


def ob_div(ku, kv, real):
    def run():
        m = load_module()
        pu, pv = Poly("u", ku, real), Poly("v", kv, real)
        small = Small()
        m.torch.abs = small
        q, r = m.polydiv(pu.t, pv.t)
        zero = ku == "zero"
        U = (lambda i: ZEROE) if zero else pu.co
        V = pv.co
        c = cur()
        MP, NP = (ZERO if zero else T.P_(pu.n) - 1), T.P_(pv.n) - 1
        if CONCRETE[0] is not None:
            small.d = c.n(MP + 1 - r.sh[0])
        d = small.d
        if not c.ge0(MP - NP):
            ensures(q, (1,), lambda i: ZEROE, "quotient of a shorter dividend", real)
            ensures(r, (mk(c.n(MP + 1 - d)),), lambda i: U(i[0] + d), "the remainder is the dividend", real)
            return
        Q = new_rec("Q", (MP - NP + 1,), 0, None, None, real)

        def part(i, t):
            """sum of q_j v_(i-j) over the j < t for which v has the coefficient"""
            c = cur()
            l = c.n(i - NP) if c.ge0(i - NP) else ZERO
            h = t if c.ge0(i + 1 - t) else i + 1
            if not c.ge0(c.n(h - l)):
                return ZEROE
            return Sum(l, h, lambda j: app(Q, (j,)) * V(i - j))

        Q.rule = lambda i: T.inverse(V(ZERO)) * (U(i[0]) - part(i[0], i[0]))
        for s in recs_named("r"):
            relate(s, lambda i: ZEROE if cur().ge0(i[1] - i[0]) else U(i[0]) - part(i[0], i[1] + 1), "the working remainder is u minus the terms taken so far")
        for s in recs_named("q"):
            relate(s, lambda i: app(Q, (i[0],)) if cur().ge0(i[1] - i[0]) else ZEROE, "the coefficients of the quotient found so far")

        def R(i):
            cur().eq0(i)
            return ZEROE if cur().ge0(MP - NP - i) else U(i) - part(i, MP - NP + 1)

        ensures(q, (mk(c.n(MP - NP + 1)),), lambda i: app(Q, i), "coefficients of the quotient", real)
        ensures(r, (mk(c.n(MP + 1 - d)),), lambda i: R(i[0] + d), "the remainder is u - q v, small leading coefficients dropped", real)
        Q.unfold_ok = False
        prove_equal_at((mk(c.n(MP - NP + 1)),), lambda i: part(i[0], i[0]) + toexpr(Q.rule(i)) * V(ZERO), lambda i: U(i[0]), "u = q v + r, coefficients of the quotient's length")

    return run


for real in (True, False):
    e = "real" if real else "complex"
    for kind in ("any", "zero"):
        add("prototype/poly.trim_zeros %s %s" % (kind, e), "prototype/poly.py:trim_zeros", ob_trim(kind, real))
        for xk in (0, 1):
            add("prototype/poly.polyval %s x:%dd %s" % (kind, xk, e), "prototype/poly.py:polyval", ob_val(kind, xk, real))
        for o in (0, 1, 2):
            add("prototype/poly.polyder %s order:%s %s" % (kind, ("0", "1", "more")[o], e), "prototype/poly.py:polyder", ob_der(kind, o, real))
        for kb in ("any", "zero"):
            add("prototype/poly.polymul %s %s %s" % (kind, kb, e), "prototype/poly.py:polymul", ob_mul(kind, kb, real))
    for ku in ("any", "zero"):
        add("prototype/poly.polydiv %s %s" % (ku, e), "prototype/poly.py:polydiv", ob_div(ku, "any", real))
    for rel in "<=>":
        add("prototype/poly.polyadd %s %s" % (rel, e), "prototype/poly.py:polyadd", ob_sum(1, rel, real))
        add("prototype/poly.polysub %s %s" % (rel, e), "prototype/poly.py:polysub", ob_sum(-1, rel, real))
for k in range(1, 9):
    add("prototype/poly.polysmul %d" % k, "prototype/poly.py:polysmul", ob_smul(k))


def ob_roots(kind):
    def run():
        m = load_module()
        p = Poly("p", kind, trailing=kind != "zero")
        seen = []

        def eigvals(a):
            n = a.sh[0]
            same_shape(a, (n, n), "companion matrix")
            t = arg("lam", (n,), False)
            seen.append((a, t))
            return t

        load.EIGVALS[0] = eigvals
        r = m.roots(p.t)
        if kind == "zero":
            ensures(r, (0,), lambda i: ZEROE, "no roots")
            return
        n, w = T.P_(p.n), T.P_(p.w)
        if not cur().ge0(n - 2):
            if seen:
                raise Unproved("roots of a constant")
            ensures(r, (p.w,), lambda i: ZEROE, "the roots at zero")
            return
        if len(seen) != 1:
            raise Unproved("eigenvalues of one matrix")

        def companion(i):
            c = cur()
            if c.eq0(i[0]):
                return ZEROE - p.co(i[1] + 1) * T.inverse(p.co(ZERO))
            return toexpr(1) if c.eq0(i[0] - i[1] - 1) else ZEROE

        ensures(seen[0][0], (mk(n - 1), mk(n - 1)), companion, "companion matrix of the polynomial without its zeros at the ends")
        lam = seen[0][1]
        ensures(r, (mk(n - 1 + w),), lambda i: toexpr(lam.at(i)) if cur().ge0(n - 2 - i[0]) else ZEROE, "its eigenvalues, then the roots at zero")

    return run


for kind in ("any", "zero"):
    add("prototype/poly.roots %s" % kind, "prototype/poly.py:roots", ob_roots(kind))
