"""Contract of comb_filter: y[b,n] = x[b,n] - a[b] y[b,n-D], y[b,-1-k] = zi[b,k]."""
from spec import *
import load
from contracts.scalar import need, bsel, contract_lti_lr

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


def H_comb(a, D, x, zi, name="H"):
    A, fx = bsel(a), T.freeze(x)
    real = a._real and x._real and (zi is None or zi._real)
    D = T.P_(D)
    s = new_rec(name, x.sh, 1, None, None, real, window=D)
    s.later = True
    s.rule = lambda i: fx(i) - A(i[0]) * app(s, (i[0], i[1] - D))
    if zi is None:
        s.init = lambda i: ZEROE
    else:
        fz = T.freeze(zi)
        s.init = lambda i: fz((i[0], -1 - i[1]) if zi.dim() == 2 else (-1 - i[1],))
    return s


def hist_y(s, N):
    """Output at instant t, with the memory before the start."""
    def f(b, t):
        c = cur()
        if c.ge0(t):
            return app(s, (b, t))
        return s.init((b, t))

    return f


def ob_comb(ak, zk, real):
    def run():
        m = load.Loader().module("philtorch.lti.filtering")
        m.linear_recurrence = contract_lti_lr()
        B, N, D, U = size("B"), size("N"), size("D"), size("U")
        a = arg("a", {"0": (), "1": (1,), "B": (B,)}[ak], real)
        x = arg("x", (B, N), real)
        x.sym.padpos = 1
        zi = {None: lambda: None, "1d": lambda: arg("zi", (D,), real), "2d": lambda: arg("zi", (B, D), real)}[zk]()
        r = m.comb_filter(a, D, x, zi, unroll_factor=U)
        s = H_comb(a, D, x, zi)
        DP = T.P_(D)
        for c in recs_named("Y"):
            # row b D + d, step q is sample q D + d of signal b
            def cand(i):
                q, d = cur().divmod(i[0], DP)
                return app(s, (q, i[1] * DP + d))

            relate(c, cand, "rows of the folded signal")
        y = r if zi is None else r[0]
        ensures(y, (B, N), lambda i: app(s, i), "y[n] = x[n] - a y[n - delay]", real)
        if zi is not None:
            if len(r) != 2:
                raise Refuted("result of comb_filter")
            h = hist_y(s, N)
            ensures(r[1], (B, D), lambda i: h(i[0], cur().n(T.P_(N)) - 1 - i[1]), "memory after the last sample, most recent first", real)

    return run


for real in (True, False):
    for ak in "01B":
        for zk in (None, "1d", "2d"):
            add(["C18"], "lti/filtering.comb_filter a:%s zi:%s %s" % (ak, zk, "real" if real else "complex"), "lti/filtering.py:comb_filter", ob_comb(ak, zk, real))
