"""Contract of filtfilt (C14), and the structures' agreement from the steady state."""
from spec import *
import load, numev
from contracts.scalar import need
from contracts.filt import coefs, bread
from contracts.zi import orders

OBLIGATIONS = []


def add(name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=["C14"], name=name, function=function, fn=fn, **k))


def structure(form, B_, A_, u, zi, BP, NP, MP, name):
    """The filter structure on the input u(q, t), from the memory zi(q, k) (None: at rest): its recursion and (q, t) -> y."""
    if form == "tdf2":
        s = new_rec(name, (BP, NP, MP), 1, None, None, True)
        y = lambda q, t: B_(q, ZERO) * u(q, t) + app(s, (q, t - 1, ZERO))

        def rule(i):
            q, t, k = i
            v = B_(q, k + 1) * u(q, t) - A_(q, k) * y(q, t)
            return v + app(s, (q, t - 1, k + 1)) if cur().ge0(MP - 2 - k) else v

        s.rule = rule
        s.init = lambda i: zi(i[0], i[2]) if zi else ZEROE
        return s, y
    if form == "df2":
        s = new_rec(name, (BP, NP), 1, None, None, True, window=MP)
        W = lambda q, t: app(s, (q, t)) if zi or cur().ge0(t) else ZEROE
        s.rule = lambda i: u(*i) - Sum(ZERO, MP, lambda k: A_(i[0], k) * W(i[0], i[1] - 1 - k))
        s.init = lambda i: zi(i[0], -1 - i[1]) if zi else ZEROE
        return s, (lambda q, t: Sum(ZERO, MP + 1, lambda k: B_(q, k) * W(q, t - k)))
    s = new_rec(name, (BP, NP), 1, None, None, True, window=MP)
    Y = lambda q, t: app(s, (q, t)) if cur().ge0(t) else ZEROE
    s.rule = lambda i: Sum(ZERO, MP + 1, lambda k: B_(i[0], k) * (u(i[0], i[1] - k) if cur().ge0(i[1] - k) else ZEROE)) - Sum(ZERO, MP, lambda k: A_(i[0], k) * Y(i[0], i[1] - 1 - k))
    s.init = lambda i: ZEROE
    return s, (lambda q, t: app(s, (q, t)))


class Filter:
    """lfilter and lfilter_zi by their contracts (C07, C13) for the given coefficients."""

    def __init__(self, a, b, bd, ad, K, Ma, M, form):
        self.a, self.b, self.bd, self.ad, self.form = a, b, bd, ad, form
        self.B_, self.A_ = coefs(b, a, bd, ad, K, Ma, M)
        self.M, self.MP = M, T.P_(M)
        self.recs = []
        self.Z = {}
        self.expect = None

    def cut(self, sh, u):
        """The input of the next run of the filter, by name where it is the expected one."""
        if self.expect is None or CONCRETE[0] is not None or FRAME[0]:
            return u
        want = self.expect(len(self.recs))
        if not X.forall_zero(sh, lambda i: toexpr(u(*i)) - toexpr(want(*i))):
            return u
        U = T.new_sym("U", sh, True)
        self.named[len(self.recs)] = lambda q, t: app(U, (q, t))
        return self.named[len(self.recs)]

    def same(self, t, u, what):
        need(t.dim() == u.dim(), "lfilter: " + what)
        same_shape(t, u.sh, what)
        prove_equal_at(u.sh, t.at, u.at, what)

    def lfilter_zi(self, a, b=None, transpose=True):
        self.same(a, self.a, "denominator of lfilter_zi")
        need(b is not None, "lfilter_zi: b")
        self.same(b, self.b, "numerator of lfilter_zi")
        Z, bt = self.steady(transpose)
        return T.Tensor(((Z.shape[0],) if bt else ()) + (self.M,), lambda i: app(Z, tuple(i)), True, sym=Z)

    def zq(self, q, k):
        Z, bt = self.steady(self.form == "tdf2")
        return app(Z, (q, k)) if bt else app(Z, (k,))

    def steady(self, transpose):
        """The steady state of the direct or of the transposed second form."""
        bt = self.ad == 2 or (self.bd == 2 and transpose)
        if transpose in self.Z:
            return self.Z[transpose], bt
        B = (self.a.sh[0] if self.ad == 2 else self.b.sh[0]) if bt else None
        Z = self.Z[transpose] = T.new_sym("Zt" if transpose else "Zd", ((B,) if bt else ()) + (self.MP,), True)
        A_, B_ = self.A_, self.B_

        def model(env, idx):
            n = env.poly(cur().n(self.MP), {})
            q = P.const(idx[0]) if bt else ZERO
            A = [env.terms(toexpr(A_(q, P.const(k))).t, {}) for k in range(n)]
            s = sum(A, numev.G(1))
            if not transpose:
                return s.inv()
            Bs = [env.terms(toexpr(B_(q, P.const(k))).t, {}) for k in range(n + 1)]
            dc = sum(Bs, numev.G(0)) * s.inv()
            # zi_k = sum_{j >= k} (b_(j+1) - a_j dc)
            return sum((Bs[j + 1] - A[j] * dc for j in range(idx[-1], n)), numev.G(0))

        cur().syms[("model", Z.name)] = model
        return Z, bt

    def lfilter(self, b, a, x, zi=None, form="df2", backend="ssm", delayed_form=False, **kw):
        self.same(a, self.a, "denominator of lfilter")
        self.same(b, self.b, "numerator of lfilter")
        need(form in ("df2", "tdf2", "df1", "tdf1"), "lfilter: form")
        need(x.dim() in (1, 2) and (zi is None or zi.dim() in (1, 2)), "lfilter: dimensions")
        dims = [t for t in (b, a, zi) if t is not None and t.dim() == 2] + ([x] if x.dim() == 2 else [])
        for t in dims[1:]:
            need(t.size(0) == dims[0].size(0), "lfilter: batch")
        if zi is not None:
            if not zi.size(-1) == self.M:
                raise AssertionError("lfilter: zi")
        BP = T.P_(dims[0].sh[0]) if dims else T.P_(1)
        fx0 = T.freeze(x)
        u = (lambda q, t: fx0((q, t))) if x.dim() == 2 else (lambda q, t: fx0((t,)))
        z = bread(zi)(1) if zi is not None and form in ("df2", "tdf2") else None
        NP = x.sh[-1]
        u = self.cut((BP, NP), u)
        s, y = structure(form, self.B_, self.A_, u, z, BP, NP, self.MP, "F")
        self.recs.append((s, form))
        if dims:
            r = T.Tensor((BP, NP), lambda i: toexpr(y(i[0], i[1])), True)
        else:
            r = T.Tensor((NP,), lambda i: toexpr(y(ZERO, i[0])), True)
        if zi is None or form not in ("df2", "tdf2"):
            return r
        if form == "df2":
            zf = lambda q, k: app(s, (q, NP - 1 - k))
        else:
            zf = lambda q, k: app(s, (q, NP - 1, k))
        return r, T.Tensor(((BP,) if dims else ()) + (self.MP,), lambda i: zf(i[0] if dims else ZERO, i[-1]), True)


def ob_filtfilt(form, bd, ad, xd, mode, pl, rel):
    def run():
        m = load.Loader().module("philtorch.lti.filtering")
        B = size("B") if xd == 2 else 1
        K, Ma, M = orders(rel)
        if pl == "E":
            E = size("E", 0)
        elif mode is None:
            E = 0
        else:
            E = 3 * (M + 1)
        N = E + size("N")
        b = arg("b", ((B,) if bd == 2 else ()) + (K,))
        a = arg("a", ((B,) if ad == 2 else ()) + (Ma,))
        x = arg("x", ((B,) if xd == 2 else ()) + (N,))
        F_ = Filter(a, b, bd, ad, K, Ma, M, form)
        m.lfilter, m.lfilter_zi = F_.lfilter, F_.lfilter_zi
        kw = {}
        if pl == "E":
            kw["padlen"] = E
        if mode != "replicate":
            kw["padmode"] = mode
        if mode is None:
            E = 0
        BP, NP, EP, MP = T.P_(B), T.P_(N), T.P_(E), T.P_(M)
        NE = NP + EP * 2
        fx0 = T.freeze(x)
        fx = fx0 if xd == 2 else (lambda i: fx0(i[1:]))

        def ext(q, t):
            c = cur()
            p = c.n(t - EP)
            if not c.ge0(p):
                if mode == "constant":
                    return ZEROE
                p = {"replicate": ZERO, "reflect": -p, "circular": p + NP}[mode]
            elif not c.ge0(c.n(NP - 1 - p)):
                if mode == "constant":
                    return ZEROE
                p = {"replicate": NP - 1, "reflect": NP * 2 - 2 - p, "circular": p - NP}[mode]
            return toexpr(fx((q, p)))

        A_, B_ = F_.A_, F_.B_
        if form in ("df1", "tdf1"):
            gb, ga = bread(b)(1), bread(a)(1)

            def dc(q):
                return Sum(ZERO, T.P_(K), lambda k: gb(q, k)) * T.inverse(1 + Sum(ZERO, T.P_(Ma), lambda k: ga(q, k)))

        steady = form in ("df2", "tdf2")
        runs = {}

        def inp(n):
            """the input of run n of the filter"""
            if n == 0:
                return ext
            y1 = spec(0)
            return lambda q, t: y1(q, NE - 1 - t)

        def expect(n):
            u = inp(n)
            return u if steady else (lambda q, t: u(q, t) - u(q, ZERO))

        def spec(n):
            """the filter from the steady state of its first sample"""
            if n not in runs:
                u = inp(n)
                v = F_.named.get(n) or expect(n)
                z = (lambda q, k: F_.zq(q, k) * u(q, ZERO)) if steady else None
                s, y0 = structure(form, B_, A_, v, z, BP, NE, MP, "GH"[n])
                runs[n] = y0 if steady else (lambda q, t: y0(q, t) + dc(q) * u(q, ZERO))
                if len(F_.recs) > n and F_.recs[n][0].ndim == s.ndim:
                    relate(F_.recs[n][0], lambda i: app(s, i), "the filter from the steady state")
            return runs[n]

        F_.expect = lambda n: expect(n) if n < 2 else (lambda q, t: ZEROE)
        F_.named = {}
        y = m.filtfilt(b, a, x, form=form, **kw)
        if len(F_.recs) != 2 and not FRAME[0] and CONCRETE[0] is None:
            raise Unsupported("lfilter is not called twice")
        y2 = (spec(0), spec(1))[1]
        up = (lambda f: (lambda i: toexpr(f(ZERO, i[0])))) if xd == 1 else (lambda f: (lambda i: toexpr(f(*i))))
        ensures(y, x.sh, up(lambda q, t: y2(q, NE - 1 - (t + EP))), "forward, reverse, filter again, edges removed", True)

    return run


MODES = [(p, "E") for p in ("replicate", "reflect", "constant", "circular")] + [("replicate", None), (None, None), (None, "E")]
ROWS = [(form, bd, ad, xd, mode, pl, rel) for form in ("tdf2", "df2", "df1", "tdf1") for xd in (2, 1) for bd in (1, 2) for ad in (1, 2)
        for mode, pl in MODES for rel in "=<>" if xd == 2 or (bd, ad) == (1, 1)]
Q = cover_random(ROWS, 2, [lambda g: (g[0], g[1:4]), lambda g: (g[0], g[4:6])])
for g in ROWS:
    form, bd, ad, xd, mode, pl, rel = g
    add("lti/filtering.filtfilt %s b:%d a:%d x:%dd padmode:%s padlen:%s order b%sa" % (form, bd, ad, xd, mode, pl, rel), "lti/filtering.py:filtfilt", ob_filtfilt(*g), thorough=g not in Q)


def lemma(form):
    """From the steady state of the first sample a form computes dc * u0 plus its response at rest to u - u0; so do the other forms.

    The premises are the postconditions of lfilter_zi (C13); at rest all forms solve the same difference equation (C07)."""
    def run():
        B, M, N = size("B"), size("M"), size("N")
        BP, MP, NP = T.P_(B), T.P_(M), T.P_(N)
        b, a, d = arg("b", (B, M)), arg("a", (B, M)), arg("d", (B, N))
        fb, fa, fd = T.freeze(b), T.freeze(a), T.freeze(d)
        A_ = lambda q, k: toexpr(fa((q, k)))
        dev = lambda q, t: toexpr(fd((q, t)))
        if form == "tdf2":
            U, G = arg("u0", (B,)), arg("c", (B,))
            fu, fg = T.freeze(U), T.freeze(G)
            u0, gain = (lambda q: toexpr(fu((q,)))), (lambda q: toexpr(fg((q,))))
            # zi_k = b_(k+1) - a_k c + zi_(k+1), counted from the end; b_0 = c - zi_0
            z = new_rec("zi", (BP, MP), 1, None, None, True)
            z.rule = lambda i: toexpr(fb((i[0], MP - 1 - i[1]))) - A_(i[0], MP - 1 - i[1]) * gain(i[0]) + app(z, (i[0], i[1] - 1))
            z.init = lambda i: ZEROE
            zi = lambda q, k: app(z, (q, MP - 1 - k))
            B_ = lambda q, k: (gain(q) - zi(q, ZERO)) if cur().eq0(k) else toexpr(fb((q, k - 1)))
            relate(z, lambda i: Sum(MP - 1 - i[1], MP, lambda k: toexpr(fb((i[0], k))) - A_(i[0], k) * gain(i[0])), "the steady state in closed form")
            prove_equal_at((B,), lambda i: gain(i[0]) * (1 + Sum(ZERO, MP, lambda k: A_(i[0], k))), lambda i: B_(i[0], ZERO) + Sum(ZERO, MP, lambda k: toexpr(fb((i[0], k)))), "c is the gain at frequency 0")
            cur().rel.pop(z.name, None)
            v = lambda q, k: zi(q, k) * u0(q)
        else:
            V = arg("v", (B,))
            fv = T.freeze(V)
            den = lambda q: 1 + Sum(ZERO, MP, lambda k: A_(q, k))
            b0 = arg("b0", (B,))
            f0 = T.freeze(b0)
            B_ = lambda q, k: toexpr(f0((q,))) if cur().eq0(k) else toexpr(fb((q, k - 1)))
            # u0 = v den, z0 = 1 / den, dc = (sum b) / den
            u0 = lambda q: toexpr(fv((q,))) * den(q)
            v = lambda q, k: toexpr(fv((q,)))
        u = lambda q, t: dev(q, t) + u0(q)
        s, y = structure(form, B_, A_, u, v, BP, NP, MP, "steady")
        r, y0 = structure(form, B_, A_, dev, None, BP, NP, MP, "rest")
        if form == "tdf2":
            relate(s, lambda i: app(r, i) + v(i[0], i[2]), "state = response at rest + steady state")
            want = lambda i: y0(*i) + gain(i[0]) * u0(i[0])
        else:
            relate(s, lambda i: (app(r, i) if cur().ge0(i[1]) else ZEROE) + v(i[0], i[1]), "w = response at rest + steady state")
            want = lambda i: y0(*i) + toexpr(fv((i[0],))) * (B_(i[0], ZERO) + Sum(ZERO, MP, lambda k: toexpr(fb((i[0], k)))))
        prove_equal_at((B, N), lambda i: y(*i), want, "output = response at rest + gain at frequency 0 times the first sample")

    return run


for form in ("tdf2", "df2"):
    add("lti/filtering.filtfilt lemma: the %s structure from the steady state" % form, "lemma", lemma(form))
