"""Contracts of the scalar recurrences (lti/recur.py, lpv/recur.py)."""
from spec import *
import load


def need(cond, what):
    if not cond:
        raise Refuted("precondition of %s" % what)


def bsel(t):
    """Value of a 0-D / (1,) / (B,) operand for batch b."""
    if t.dim() == 0:
        return lambda b: t.at(())
    if T.P_(t.sh[0]) == ONE:
        return lambda b: t.at((ZERO,))
    return lambda b: t.at((b,))


def H_lti(a, init, x, name="H"):
    """h[b,t] = a[b] h[b,t-1] + x[b,t], h[b,-1] = init[b]."""
    A, I = bsel(a), bsel(init)
    real = a._real and init._real and x._real
    fx = T.freeze(x)
    s = new_rec(name, x.sh, 1, None, None, real)
    s.rule = lambda i: A(i[0]) * app(s, (i[0], i[1] - 1)) + fx(i)
    s.init = lambda i: I(i[0])
    s.parts = (A, I, fx)
    return s


def closed_lti(s):
    """h[t] = a^(t+1) init + sum_k a^(t-k) x[k]."""
    A, I, fx = s.parts

    def cand(i):
        b, t = i
        return T.int_power(A(b), t + 1) * I(b) + Sum(ZERO, t + 1, lambda k: T.int_power(A(b), t - k) * fx((b, k)))

    return cand


def one_or(t, n):
    if t.dim() == 0:
        return True
    return t.dim() == 1 and (t.size(0) == 1 or t.size(0) == n)


def contract_lti_lr(measure=None):
    def linear_recurrence(a, init, x, *, unroll_factor=1):
        need(x.dim() == 2 and one_or(a, x.size(0)) and one_or(init, x.size(0)), "linear_recurrence")
        need(unroll_factor >= 1, "linear_recurrence: unroll_factor")
        need(x.size(1) >= 1, "linear_recurrence: length")
        if measure is not None:
            need(x.size(1) < measure[0], "linear_recurrence: decreasing length")
        s = H_lti(a, init, x, "Y")
        return rec_tensor(s)

    return linear_recurrence


def operand(name, kind, B, real):
    return arg(name, {"0": (), "1": (1,), "B": (B,)}[kind], real)


def ob_lti_loop(ak, ik, real):
    def run():
        m = load.Loader().module("philtorch.lti.recur")
        B, N = size("B"), size("N")
        a, init, x = operand("a", ak, B, real), operand("init", ik, B, real), arg("x", (B, N), real)
        y = m._scalar_recursion_loop(a, init, x)
        s = H_lti(a, init, x)
        ensures(y, (B, N), lambda i: app(s, i), "h[t] = a h[t-1] + x[t]", real)

    return run


def ob_lti_lr(ak, ik, real):
    def run():
        m = load.Loader().module("philtorch.lti.recur")
        B, N, U = size("B"), size("N"), size("U")
        a, init, x = operand("a", ak, B, real), operand("init", ik, B, real), arg("x", (B, N), real)
        x.sym.padpos = 1
        f = m.linear_recurrence
        m.linear_recurrence = contract_lti_lr((N,))
        m._scalar_recursion_loop = lambda a, i, x: rec_tensor(H_lti(a, i, x, "L"))
        y = f(a, init, x, unroll_factor=U)
        s = H_lti(a, init, x)
        for c in recs_named("Y"):
            # the block recursion runs over the closed form at the block ends
            relate(s, closed_lti(s), "closed form of h")
            Uc = T.P_(U)
            cl = closed_lti(s)
            relate(c, lambda i: cl((i[0], (i[1] + 1) * cur().n(Uc) - 1)), "block ends")
        ensures(y, (B, N), lambda i: app(s, i), "h[t] = a h[t-1] + x[t]", real)

    return run


OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


for real in (True, False):
    r = "real" if real else "complex"
    for ak in "1B":
        for ik in "1B":
            add(["C03"], "lti/recur._scalar_recursion_loop a:%s init:%s %s" % (ak, ik, r), "lti/recur.py:_scalar_recursion_loop", ob_lti_loop(ak, ik, real))
    for ak in "01B":
        for ik in "01B":
            add(["C03"], "lti/recur.linear_recurrence a:%s init:%s %s" % (ak, ik, r), "lti/recur.py:linear_recurrence", ob_lti_lr(ak, ik, real))


# ------------------------------------------------------------------ time-varying
def last_at(t, nd):
    """Value of an operand broadcast over leading dimensions to nd dimensions."""
    k = nd - t.dim()
    f = T.freeze(t)
    ones = [T.P_(p) == ONE for p in t.sh]
    return lambda i: f(tuple(ZERO if o else x for o, x in zip(ones, i[k:])))


def H_lpv(a, init, x, name="H"):
    """h[..., t] = a[..., t] h[..., t-1] + x[..., t] along the last dimension."""
    nd = x.dim()
    A, I, fx = last_at(a, nd), last_at(init, nd - 1), T.freeze(x)
    real = a._real and init._real and x._real
    s = new_rec(name, x.sh, nd - 1, None, None, real)
    s.rule = lambda i: A(i) * app(s, tuple(i[:-1]) + (i[-1] - 1,)) + fx(i)
    s.init = lambda i: I(tuple(i[:-1]))
    s.parts = (A, I, fx)
    return s


def closed_lpv(s, cum):
    """h[t] = prod a[0..t] init + sum_k prod a[k+1..t] x[k]; cum(b, t) = product of a up to t."""
    A, I, fx = s.parts

    def cand(i):
        t = i[-1]
        b = tuple(i[:-1])
        return cum(b, t) * T.inverse(cum(b, -ONE)) * I(b) + Sum(
            ZERO, t + 1, lambda k: cum(b, t) * T.inverse(cum(b, k)) * fx(b + (k,)))

    return cand


def contract_lpv_lr(measure=None):
    def linear_recurrence(a, init, x, *, unroll_factor=1):
        need(x.dim() == 2 and a.dim() in (1, 2), "lpv.linear_recurrence")
        need(a.size(-1) == x.size(1), "lpv.linear_recurrence: length of a")
        need(a.dim() == 1 or a.size(0) == x.size(0), "lpv.linear_recurrence: batch of a")
        need(one_or(init, x.size(0)), "lpv.linear_recurrence: init")
        need(unroll_factor >= 1 and x.size(1) >= 1, "lpv.linear_recurrence")
        if measure is not None:
            need(x.size(1) < measure[0], "lpv.linear_recurrence: decreasing length")
        return rec_tensor(H_lpv(a, init, x, "Y"))

    return linear_recurrence


def contract_lpv_loop(a, init, x):
    need(x.size(-1) >= 1, "_scalar_recursion_loop: length")
    need(a.size(-1) == x.size(-1), "_scalar_recursion_loop: length of a")
    sh = T.broadcast_dims([a.sh[:-1], x.sh[:-1], init.sh])
    need(len(sh) == x.dim() - 1 and all(cur().eq0(p - q) for p, q in zip(sh, x.sh)), "_scalar_recursion_loop: batch shape")
    return rec_tensor(H_lpv(a, init, x, "L"))


def ob_lpv_loop(ash, ish, xsh, real):
    def run():
        m = load.Loader().module("philtorch.lpv.recur")
        d = dict(B=size("B"), Q=size("Q"), N=size("N"))
        d["1"] = 1
        a = arg("a", [d[k] for k in ash], real)
        init = arg("init", [d[k] for k in ish], real)
        x = arg("x", [d[k] for k in xsh], real)
        y = m._scalar_recursion_loop(a, init, x)
        s = H_lpv(a, init, x)
        ensures(y, x.sh, lambda i: app(s, i), "h[t] = a[t] h[t-1] + x[t]", real)

    return run


def ob_lpv_lr(ash, ik, real):
    def run():
        m = load.Loader().module("philtorch.lpv.recur")
        B, N, U = size("B"), size("N"), size("U")
        d = dict(B=B, N=N)
        a = arg("a", [d[k] for k in ash], real, kind="sseq")
        a.sym.padpos = len(ash) - 1
        init, x = operand("init", ik, B, real), arg("x", (B, N), real)
        x.sym.padpos = 1
        f = m.linear_recurrence
        m.linear_recurrence = contract_lpv_lr((N,))
        m._scalar_recursion_loop = contract_lpv_loop
        y = f(a, init, x, unroll_factor=U)
        s = H_lpv(a, init, x)
        nm = a.sym.name
        cum = lambda b, t: X.atom(("app", nm, (tuple(b) if len(ash) == 2 else ()) + (t,), False))
        for c in recs_named("Y"):
            cl = closed_lpv(s, cum)
            relate(s, cl, "closed form of h")
            relate(c, lambda i: cl((i[0], (i[1] + 1) * cur().n(T.P_(U)) - 1)), "block ends")
            for l in recs_named("L"):
                if l.ndim == 3:
                    relate(l, lambda i: cl((i[0], i[1] * cur().n(T.P_(U)) + i[2])), "inside a block")
        ensures(y, (B, N), lambda i: app(s, i), "h[t] = a[t] h[t-1] + x[t]", real)

    return run


for real in (True, False):
    r = "real" if real else "complex"
    for ash, ish, xsh in (("N", "B", "BN"), ("BN", "B", "BN"), ("N", "1", "BN"), ("BN", "1", "BN"), ("BQN", "BQ", "BQN"), ("QN", "BQ", "BQN")):
        add(["C03"], "lpv/recur._scalar_recursion_loop a:%s init:%s %s" % (ash, ish, r), "lpv/recur.py:_scalar_recursion_loop", ob_lpv_loop(ash, ish, xsh, real))
    for ash in ("N", "BN"):
        for ik in "01B":
            add(["C03"], "lpv/recur.linear_recurrence a:%s init:%s %s" % (ash, ik, r), "lpv/recur.py:linear_recurrence", ob_lpv_lr(ash, ik, real))
