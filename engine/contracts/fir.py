"""Contracts of fir, allpole (time-invariant and varying), comb_filter."""
from spec import *
import load
from contracts import ops
from contracts.scalar import need, H_lti, bsel, contract_lti_lr

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


def hist(x, zi):
    """(b, t) -> x[b, t] for t >= 0, the memory zi[b, -1-t] before (zero without zi, and before its start)."""
    fx = T.freeze(x)
    fz = T.freeze(zi) if zi is not None else None
    M = zi.sh[1] if zi is not None else None

    def f(b, t):
        c = cur()
        if c.ge0(t):
            return fx((b, t))
        if fz is None:
            return ZEROE
        return fz((b, -1 - t))

    return f


# ---------------------------------------------------------------- diag_shift
def shifted_entry(coef, offset):
    """(..., n, k) -> coef[..., n - k - offset, k] inside the range, zero outside."""
    f = T.freeze(coef)
    Tn = coef.sh[-2]

    def fn(i):
        c = cur()
        n = i[-2] - i[-1] - topoly(offset)
        if not c.ge0(n):
            return ZEROE
        if not c.ge0(c.n(Tn) - 1 - n):
            return ZEROE
        return f(tuple(i[:-2]) + (n, i[-1]))

    return fn


def contract_diag_shift(coef, offset=0, discard_end=False):
    need(coef.dim() >= 2 and isinstance(offset, int) and offset >= 0, "diag_shift")
    n = coef.sh[-2] if discard_end else coef.sh[-2] + coef.sh[-1] + offset - 1
    return Tensor(coef.sh[:-2] + (cur().n(n), coef.sh[-1]), shifted_entry(coef, offset), coef._real)


def ob_diag_shift(lead, offset, discard, real, mzero=0):
    def run():
        m = load.Loader().module("philtorch.lpv.utils")
        N, M = size("N"), 0 if mzero else size("M")
        coef = arg("coef", tuple(size(c) for c in lead) + (N, M), real)
        y = m.diag_shift(coef, offset=offset, discard_end=discard)
        n = T.P_(N) if discard else T.P_(N) + T.P_(M) + offset - 1
        ensures(y, coef.sh[:-2] + (n, T.P_(M)), shifted_entry(coef, offset), "row n, column k holds coefficient k of time n - k - offset", real)

    return run


for _real in (True, False):
    for _lead in ("", "B"):
        for _off in (0, 1, 2):
            for _d in (False, True):
                add(["C09", "C08"], "lpv/utils.diag_shift %s offset:%d discard_end:%s %s" % (_lead, _off, _d, "real" if _real else "complex"),
                    "lpv/utils.py:diag_shift", ob_diag_shift(_lead, _off, _d, _real))


# ---------------------------------------------------------------- fir
def fir_value(bc, x, zi, transpose):
    """bc(b, n, k): coefficient k at time n. Returns ((b, t) -> y, (b, k) -> zf); K: number of coefficients."""

    def make(K, N):
        fx = T.freeze(x)
        if transpose:
            fz = T.freeze(zi) if zi is not None else None

            def tail(b, t):
                # transposed form: the coefficient is taken when the input sample arrives
                def body(k):
                    c = cur()
                    n = t - k
                    if not c.ge0(n):
                        return ZEROE
                    if not c.ge0(c.n(N) - 1 - n):
                        return ZEROE
                    return bc(b, n, k) * fx((b, n))

                v = Sum(ZERO, K, body)
                if fz is not None and cur().ge0(K - 2 - t):
                    v = v + fz((b, t))
                return v

            return tail, lambda b, k: tail(b, k + cur().n(N))
        hx = hist(x, zi)
        return (lambda b, t: Sum(ZERO, K, lambda k: bc(b, t, k) * hx(b, t - k))), (lambda b, k: hx(b, cur().n(N) - 1 - k))

    return make


def ob_fir(lpv, zk, transpose, real, mzero):
    def run():
        m = load.Loader().module("philtorch.%s.filtering" % ("lpv" if lpv else "lti"))
        B, N = size("B"), size("N")
        M = 0 if mzero else size("M")
        if lpv:
            m.diag_shift = contract_diag_shift
        b = arg("b", (B,) + ((N,) if lpv else ()) + (M + 1,), real)
        x = arg("x", (B, N), real)
        zi = arg("zi", (B, M), real) if zk else None
        r = m.fir(b, x, zi, transpose=transpose)
        fb = T.freeze(b)
        # complex coefficients: the transposed form multiplies by the conjugate coefficients
        cj = (lambda e: e.conj()) if transpose and not real else (lambda e: e)
        bc = (lambda q, n, k: cj(fb((q, n, k)))) if lpv else (lambda q, n, k: cj(fb((q, k))))
        y, zf = fir_value(bc, x, zi, transpose)(T.P_(M) + 1, T.P_(N))
        out = r
        if zk:
            if not isinstance(r, (tuple, list)) or len(r) != 2:
                raise Refuted("no final state is returned")
            out, z = r
            ensures(z, (B, M), lambda i: toexpr(zf(*i)), "zf = the filter memory after the last sample", real)
        elif isinstance(r, tuple):
            raise Refuted("a final state is returned without zi")
        ensures(out, (B, N), lambda i: toexpr(y(*i)), "y[n] = sum_k b[k] x[n-k]", real)

    return run


# ---------------------------------------------------------------- allpole
def ob_allpole(zk, transpose, real, mzero):
    def run():
        ops.install()
        m = load.Loader().module("philtorch.lpv.filtering")
        m.diag_shift = contract_diag_shift
        B, N = size("B"), size("N")
        M = 0 if mzero else size("M")
        a = arg("a", (B, N, M), real)
        x = arg("x", (B, N), real)
        zi = arg("zi", (B, M), real) if zk else None
        r = m.allpole(a, x, zi, transpose=transpose)
        fa, fx = T.freeze(a), T.freeze(x)
        fz = T.freeze(zi) if zk else None
        MP, NP = T.P_(M), T.P_(N)
        s = new_rec("V", (T.P_(B), NP), 1, None, None, real, window=MP if not mzero else 1)
        if transpose:
            # y[n] = x[n] + zi[n] - sum_k a[n-k, k] y[n-k]; memory: what the past adds to the samples to come
            def body(i, lim):
                def f(k):
                    c = cur()
                    n = i[1] - 1 - k
                    if not c.ge0(n):
                        return ZEROE
                    if lim is not None and not c.ge0(c.n(lim) - 1 - n):
                        return ZEROE
                    v = fa((i[0], n, k))
                    return (v if real else v.conj()) * app(s, (i[0], n))

                return f

            s.rule = lambda i: fx(i) + (fz(i) if fz is not None and cur().ge0(MP - 1 - i[1]) else ZEROE) - Sum(ZERO, MP, body(i, None))
            s.init = lambda i: ZEROE

            def want_zf(i):
                # s_k after the last sample: zi still to come minus the outputs' contributions
                n = NP + i[1]
                v = fz((i[0], n)) if cur().ge0(MP - 1 - n) else ZEROE
                # memory of a transposed filter: the contribution of the known outputs and of earlier memory only
                return v - Sum(ZERO, MP, body((i[0], n), NP))
        else:
            s.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: fa((i[0], i[1], k)) * app(s, (i[0], i[1] - 1 - k)))
            s.init = lambda i: fz((i[0], -1 - i[1])) if fz is not None else ZEROE
            want_zf = lambda i: app(s, (i[0], NP - 1 - i[1]))
        for c in recs_named("E"):
            if transpose:
                if cur().eq0(c.shape[1] - NP):
                    relate(c, lambda i: app(s, i), "the operator runs the all-pole recursion")
            else:
                relate(c, lambda i: app(s, i), "the operator runs the all-pole recursion")
        out = r
        if zk:
            if not isinstance(r, (tuple, list)) or len(r) != 2:
                raise Refuted("no final state is returned")
            out, z = r
            ensures(z, (B, M), lambda i: toexpr(want_zf(i)), "zf = the filter memory after the last sample", real)
        ensures(out, (B, N), lambda i: app(s, i), "y[n] = x[n] - sum_k a[k] y[n-k]", real)

    return run


for real in (True,):  # the property is about real coefficients (the transposed forms conjugate complex ones)
    r = "real" if real else "complex"
    for mzero in (0, 1):
        mz = " order 0" if mzero else ""
        for zk in (0, 1):
            z = " zi" if zk else ""
            for tr in (False, True):
                t = " transposed" if tr else " direct"
                add(["C09"], "lti/filtering.fir%s%s%s %s" % (t, z, mz, r), "lti/filtering.py:fir", ob_fir(0, zk, tr, real, mzero))
                add(["C09"], "lpv/filtering.fir%s%s%s %s" % (t, z, mz, r), "lpv/filtering.py:fir", ob_fir(1, zk, tr, real, mzero))
                if not mzero:
                  add(["C09"], "lpv/filtering.allpole%s%s%s %s" % (t, z, mz, r), "lpv/filtering.py:allpole", ob_allpole(zk, tr, real, mzero))
