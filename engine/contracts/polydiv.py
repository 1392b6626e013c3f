"""Contract of polydiv (C16): u = q v + r, r shorter than v."""
from spec import *
import load

OBLIGATIONS = []


def add(name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=["C16"], name=name, function=function, fn=fn, **k))


# batch shapes of u and v
SHAPES = {
    "u:. v:.": ("", ""),
    "u:B v:B": ("B", "B"),
    "u:B v:.": ("B", ""),
    "u:. v:B": ("", "B"),
    "u:B v:1": ("B", "1"),
    "u:1 v:B": ("1", "B"),
    "u:CB v:CB": ("CB", "CB"),
    "u:CB v:B": ("CB", "B"),
    "u:B v:CB": ("B", "CB"),
    "u:C1 v:1B": ("C1", "1B"),
}


def ob(form, rel, real=True):
    def run():
        m = load.Loader().module("philtorch.poly")
        ub, vb = SHAPES[form]
        dims = {d: size(d) for d in "BC" if d in ub + vb}
        dims["1"] = 1
        if rel == ">":
            n = size("n", 0)
            mm = n + size("d", 0)
        else:
            mm = size("m", 0)
            n = mm + size("d")
        u = arg("u", tuple(dims[d] for d in ub) + (mm + 1,), real)
        v = arg("v", tuple(dims[d] for d in vb) + (n + 1,), real)
        q, r = m.polydiv(u, v)
        nb = max(len(ub), len(vb))
        bsh = []
        for k in range(-nb, 0):
            x = [s[k] for s in (ub, vb) if len(s) >= -k]
            bsh.append(dims[max(x)])
        bsh = tuple(bsh)
        fu0, fv0 = T.freeze(u), T.freeze(v)

        def rd(f, b):
            def g(i, k):
                bi = i[nb - len(b):]
                return toexpr(f(tuple(ZERO if d == "1" else p for d, p in zip(b, bi)) + (k,)))

            return g

        U, V = rd(fu0, ub), rd(fv0, vb)
        MP, NP = T.P_(mm), T.P_(n)
        if rel == "<":
            same_shape(q, bsh + (0,), "quotient of a shorter dividend")
            ensures(r, bsh + (mm + 1,), lambda i: U(i[:-1], i[-1]), "the remainder is the dividend", real)
            return
        # the coefficients of the quotient, from the highest: q_t v_0 = u_t - sum_{j < t, t - j <= n} q_j v_(t-j)
        Q = new_rec("Q", tuple(T.P_(s) for s in bsh) + (MP - NP + 1,), nb, None, None, real)

        def lo(i):
            return cur().n(i - NP) if cur().ge0(i - NP) else ZERO

        def part(b, i, t):
            """sum of q_j v_(i-j) over the j < t for which v has the coefficient"""
            c = cur()
            l = lo(i)
            h = t if c.ge0(i + 1 - t) else i + 1
            if not c.ge0(c.n(h - l)):
                return ZEROE
            return Sum(l, h, lambda j: app(Q, b + (j,)) * V(b, i - j))

        Q.rule = lambda i: T.inverse(V(i[:-1], ZERO)) * (U(i[:-1], i[-1]) - part(i[:-1], i[-1], i[-1]))
        for s in recs_named("r"):
            relate(s, lambda i: ZEROE if cur().ge0(i[-1] - i[-2]) else U(i[:-2], i[-2]) - part(i[:-2], i[-2], i[-1] + 1), "the working remainder is u minus the terms taken so far")
        ensures(q, bsh + (mm - n + 1,), lambda i: app(Q, i), "coefficients of the quotient", real)
        fr = T.freeze(r)
        same_shape(r, bsh + (n,), "the remainder is shorter than the divisor")
        ensures(r, bsh + (n,), lambda i: U(i[:-1], MP - NP + 1 + i[-1]) - part(i[:-1], MP - NP + 1 + i[-1], MP - NP + 1), "coefficients of the remainder", real)
        # u = q v + r: for the last n coefficients that is the equation of r above; for the others q_k v_0 is read by the definition of q_k
        Q.unfold_ok = False
        prove_equal_at(bsh + (mm - n + 1,), lambda i: part(i[:-1], i[-1], i[-1]) + toexpr(Q.rule(i)) * V(i[:-1], ZERO), lambda i: U(i[:-1], i[-1]), "u = q v + r, coefficients of the quotient's length")

    return run


for real in (True, False):
    for form in SHAPES:
        for rel in "><":
            add("poly.polydiv %s m%sn %s" % (form, ">=" if rel == ">" else "<", "real" if real else "complex"), "poly.py:polydiv", ob(form, rel, real))
