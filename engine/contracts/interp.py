"""Contracts of cubic-spline interpolation (C17)."""
from spec import *
import load, numev
from fractions import Fraction
from contracts.scalar import need, contract_lti_lr, H_lti, one_or

OBLIGATIONS = []


def add(name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=["C17"], name=name, function=function, fn=fn, **k))


S3 = 3 ** 0.5


def pole():
    """The pole r = sqrt(3) - 2 as an exact constant: r^2 = -1 - 4 r. Floats of Q(sqrt 3) are read exactly."""
    R = T.new_sym("r", (), True)
    R.quad = (Fraction(-1), Fraction(-4))
    r = toexpr(app(R, ()))
    s = next(pow(n, (numev.PR + 1) // 4, numev.PR) for n in (-3 % numev.PR,))
    assert s * s % numev.PR == -3 % numev.PR
    # sqrt(3) = i sqrt(-3) up to sign; nothing is conjugated here
    cur().syms[("model", R.name)] = lambda env, idx: numev.G(-2, s)

    def read(v):
        for b in sorted({Fraction(p, q) for q in (1, 2, 3, 4, 6) for p in range(-48, 49)}, key=lambda b: (abs(b), b)):
            a = v - float(b) * S3
            x = Fraction(a).limit_denominator(1000 if b == 0 else 12)
            if abs(float(x) - a) < 4e-15 * max(1.0, abs(v), abs(float(b)) * S3):
                return toexpr(x) if b == 0 else r * b + (x + 2 * b)
        return None

    def recip(ts):
        p, q = Fraction(0), Fraction(0)
        for t in ts:
            if t.b:
                return None
            if not t.f:
                p += t.c
            elif len(t.f) == 1 and list(t.f.items())[0] == (("app", R.name, (), False), T.ONE):
                q += t.c
            else:
                return None
        n = p * p - 4 * p * q + q * q
        return r * (-q / n) + (p - 4 * q) / n

    X.FLOAT[0] = read
    T.RECIP[0] = recip
    return r


def with_pole(f):
    def run():
        try:
            f(pole())
        finally:
            X.FLOAT[0] = None
            T.RECIP[0] = None

    return run


def stub_filters(m, ext):
    m.EXTENSION_LOADED = ext
    m.linear_recurrence = contract_lti_lr()

    class LTIRecurrence:
        @staticmethod
        def apply(a, zi, x):
            B = x.size(0)
            need(x.dim() == 2 and a.dim() == 1 and zi.dim() == 1, "LTIRecurrence: dimensions")
            need(a.size(0) == B and zi.size(0) == B, "LTIRecurrence: batch")
            return rec_tensor(H_lti(a, zi, x, "Y"))

    m.LTIRecurrence = LTIRecurrence


def spec_coeffs(x, r, scipy, BP, LP):
    """c = 6 y: the causal filter h from the truncated mirror sum, then the anticausal filter y from its exact mirror value."""
    fx0 = T.freeze(x)
    fx = lambda b, n: toexpr(fx0((b, n)))
    pw = lambda k: T.int_power(r, k)
    h = new_rec("h", (BP, LP), 1, None, None, True)
    h.rule = lambda i: fx(*i) + r * app(h, (i[0], i[1] - 1))
    if scipy:
        h.init = lambda i: Sum(ZERO, LP, lambda k: fx(i[0], k) * pw(k))
    else:
        h.init = lambda i: Sum(ZERO, LP - 1, lambda k: fx(i[0], k + 1) * pw(k))
    # y runs backwards: position m is sample L-1-m
    y = new_rec("y", (BP, LP), 1, None, None, True, t0=1)
    y.rule = lambda i: r * (app(y, (i[0], i[1] - 1)) - app(h, (i[0], LP - 1 - i[1])))
    last = lambda b: app(h, (b, LP - 1))
    if scipy:
        y.init = lambda i: r * T.inverse(r - 1) * last(i[0])
    else:
        y.init = lambda i: -r * T.inverse(1 - r * r) * (last(i[0]) * 2 - fx(i[0], LP - 1))
    return fx, h, y


def ob_coeff(par, scipy, ext):
    def run(r):
        m = load.Loader().module("philtorch.lti.interp")
        stub_filters(m, ext)
        B, L = size("B"), size("L", 2)
        x = arg("x", (B, L))
        c = m.cspline(x, **({} if par else dict(parallel_form=False)), **(dict(scipy_padding=True) if scipy else {}))
        BP, LP = T.P_(B), T.P_(L)
        fx, h, y = spec_coeffs(x, r, scipy, BP, LP)
        recs = [s for s in recs_named("Y") if s.ndim == 2]
        if recs:
            n = cur().n(recs[0].shape[1] - LP)
            if n.is_const() and n.cval() == 0 and len(recs) == 2:
                relate(recs[0], lambda i: app(h, i), "causal filter")
                relate(recs[1], lambda i: app(y, (i[0], i[1] + 1)), "anticausal filter")
            elif len(recs) == 1:
                # the causal filter over the mirrored signal: its second half is the anticausal filter
                top = cur().n(recs[0].shape[1])

                def cand(i):
                    b, t = i
                    if cur().ge0(LP - 1 - t):
                        return app(h, (b, t))
                    k = top - 1 - t
                    return app(y, (b, LP - 1 - k)) * (r * r - 1) * T.inverse(r) - app(h, (b, k)) + fx(b, k)

                relate(recs[0], cand, "causal filter of the mirrored signal")
        ensures(c, (B, L), lambda i: app(y, (i[0], LP - 1 - i[1])) * 6, "coefficients", True)

    return with_pole(run)


def ob_lemma(scipy):
    """c[n-1] + 4 c[n] + c[n+1] = 6 x[n] inside, and at the last sample with the mirrored coefficient."""
    def run(r):
        B, L = size("B"), size("L", 2)
        x = arg("x", (B, L))
        BP, LP = T.P_(B), T.P_(L)
        fx, h, y = spec_coeffs(x, r, scipy, BP, LP)
        c = lambda b, n: app(y, (b, LP - 1 - n)) * 6

        def at(i):
            b, n = i[0], i[1] + 1
            nxt = c(b, n + 1) if cur().ge0(LP - 2 - n) else (c(b, n) if scipy else c(b, n - 1))
            return c(b, n - 1) + c(b, n) * 4 + nxt

        prove_equal_at((B, L - 1), at, lambda i: fx(i[0], i[1] + 1) * 6, "c[n-1] + 4 c[n] + c[n+1] = 6 x[n]")

    return with_pole(run)


def ob_upsample(scipy, one=False):
    def run(r):
        m = load.Loader().module("philtorch.lti.interp")
        B, L = size("B"), size("L", 3)
        x = arg("x", (B, L))
        BP, LP = T.P_(B), T.P_(L)
        if one:
            ensures(m.cubic_spline(x, 1, scipy_padding=scipy), (B, L), T.freeze(x), "factor 1 keeps the samples", True)
            return
        mm = size("m", 2)
        C_ = T.new_sym("c", (BP, LP), True)

        def cspline(z, parallel_form=True, scipy_padding=False, lamb=0.0, **kw):
            need(z.dim() == 2 and lamb == 0.0, "cspline")
            same_shape(z, x.sh, "signal of cspline")
            prove_equal_at(z.sh, z.at, T.freeze(x), "signal of cspline")
            if bool(scipy_padding) != scipy:
                raise Refuted("cspline gets another boundary convention")
            return T.Tensor((BP, LP), lambda i: app(C_, i), True, sym=C_)

        m.cspline = cspline
        y = m.cubic_spline(x, mm, **(dict(scipy_padding=True) if scipy else {}))
        MP = T.P_(mm)

        def c(b, n):
            """coefficients, mirrored at the ends"""
            k = cur()
            n = k.n(n)
            if not k.ge0(n):
                n = -1 - n if scipy else -n
            elif not k.ge0(k.n(LP - 1 - n)):
                n = LP * 2 - 1 - n if scipy else LP * 2 - 2 - n
            return app(C_, (b, n))

        inv = T.inverse(X.int_expr(MP))
        sixth = Fraction(1, 6)

        def basis(p):
            """cubic B-spline at (p/m) + 1, p/m, 1 - p/m, 2 - p/m for 0 <= p < m"""
            f = X.int_expr_in(cur().n(p)) * inv
            g = 1 - f
            return (g * g * g * sixth, (4 - f * f * 6 + f * f * f * 3) * sixth, (4 - g * g * 6 + g * g * g * 3) * sixth, f * f * f * sixth)

        def want(i):
            q, p = cur().divmod(i[1], MP)
            w = basis(p)
            return sum((c(i[0], q + j - 1) * w[j] for j in range(4)), ZEROE)

        N = (LP - 1) * MP + 1
        ensures(y, (BP, N), want, "cubic B-spline of the coefficients", True)
        # on the samples
        fy = T.freeze(y)
        inside = lambda i: toexpr(fy((i[0], (i[1] + 1) * MP))) * 6
        prove_equal_at((BP, LP - 2), inside, lambda i: c(i[0], i[1]) + c(i[0], i[1] + 1) * 4 + c(i[0], i[1] + 2), "6 y[n m] = c[n-1] + 4 c[n] + c[n+1]")

    return with_pole(run)


for scipy in (True, False):
    add("lti/interp.cubic_spline %s" % ("scipy" if scipy else "reflect"), "lti/interp.py:cubic_spline", ob_upsample(scipy))
    add("lti/interp.cubic_spline %s factor 1" % ("scipy" if scipy else "reflect"), "lti/interp.py:cubic_spline", ob_upsample(scipy, True))
for ext in (True, False):
    for par in (True, False):
        for scipy in (True, False):
            add("lti/interp.cspline %s %s extension:%s" % ("parallel" if par else "cascaded", "scipy" if scipy else "reflect", "yes" if ext else "no"), "lti/interp.py:cspline", ob_coeff(par, scipy, ext))
for scipy in (True, False):
    add("lemma: spline coefficients interpolate, %s" % ("scipy" if scipy else "reflect"), "lemma", ob_lemma(scipy))
