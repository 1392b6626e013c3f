"""Contracts of lpv/ssm.py: time-varying matrix recursion."""
from spec import *
import load
from contracts import ops
from contracts.ops import mentry
from contracts.scalar import need
from contracts.ltissm import drive, select, pick_out, want_state
from contracts.mat import contract_cumdot

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


def lead(A):
    return "BN" if A.dim() == 4 else "N"


def H_var(A, zi, x, name="H"):
    """h[b,t,i] = sum_j A[(b,)t,i,j] h[b,t-1,j] + x[b,t,i]; h[b,-1,i] = zi[b,i]."""
    M = A.sh[-1]
    fa, fz, fx = mentry(A, lead(A)), T.freeze(zi), drive(x)
    real = A._real and zi._real and x._real
    s = new_rec(name, (x.sh[0], x.sh[1], M), 1, None, None, real)
    s.rule = lambda i: Sum(ZERO, M, lambda j: fa(i[0], i[1], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fx(i[0], i[1], i[2])
    s.init = lambda i: fz((i[0], i[2]))
    s.parts = (A, M, fz, fx)
    return s


def closed_var(s):
    """h[t] = A_t ... A_0 zi + sum_k A_t ... A_{k+1} x[k]."""
    A, M, fz, fx = s.parts
    bt = (lambda b: (b,)) if A.dim() == 4 else (lambda b: ())

    def ch(b, t, e, i, j):
        return X.atom(("ch", A.sym.name, tuple(cur().n(q) for q in bt(b)), cur().n(t), cur().n(e), i, j, False))

    def cand(i):
        b, t, r = i
        return Sum(ZERO, M, lambda j: ch(b, t, topoly(-1), r, j) * fz((b, j))) + Sum(
            ZERO, t + 1, lambda k: Sum(ZERO, M, lambda j: ch(b, t, k, r, j) * fx(b, k, j)))

    return cand


def pre_recursion(who, A, zi, x, out_idx):
    need(x.dim() in (2, 3) and A.dim() in (3, 4) and A.size(-1) == A.size(-2), who + ": shapes")
    need(A.size(-3) == x.size(1), who + ": length of A")
    if A.dim() == 4:
        need(A.size(0) == x.size(0), who + ": batch of A")
    if x.dim() == 3:
        need(x.size(2) == A.size(-1), who + ": state size of x")
    need(zi.dim() == 2 and zi.size(0) == x.size(0) and zi.size(1) == A.size(-1), who + ": zi")
    need(x.size(1) >= 1, who + ": length")
    if out_idx is not None:
        need(out_idx >= 0 and out_idx < A.size(-1), who + ": out_idx")


def contract_rec(name, measure=None):
    def state_space_recursion(A, zi, x, *, unroll_factor=1, out_idx=None):
        pre_recursion("state_space_recursion", A, zi, x, out_idx)
        need(unroll_factor >= 1, "state_space_recursion: unroll_factor")
        if measure is not None:
            need(x.size(1) < measure[0], "state_space_recursion: decreasing length")
        return select(H_var(A, zi, x, name), out_idx)

    return state_space_recursion


def contract_loop(A, zi, x, out_idx=None):
    pre_recursion("_recursion_loop", A, zi, x, out_idx)
    return select(H_var(A, zi, x, "L"), out_idx)


def contract_ext(A, zi, x, *, out_idx=None, **_):
    pre_recursion("_ext_ss_recur", A, zi, x, out_idx)
    need(A._real == x._real and zi._real == x._real, "_ext_ss_recur: dtypes")
    return select(H_var(A, zi, x, "X"), out_idx)


def operands(ad, xd, real, kind=None):
    B, N, M = size("B"), size("N"), size("M")
    A = arg("A", ((B,) if ad == 4 else ()) + (N, M, M), real, kind=kind)
    zi = arg("zi", (B, M), real)
    x = arg("x", (B, N) + ((M,) if xd == 3 else ()), real)
    x.sym.padpos = 1
    A.sym.padpos = A.dim() - 3
    return B, N, M, A, zi, x


def ob_loop(ad, xd, oi, real):
    def run():
        m = load.Loader().module("philtorch.lpv.ssm")
        B, N, M, A, zi, x = operands(ad, xd, real)
        o = pick_out(oi, M)
        y = m._recursion_loop(A, zi, x, out_idx=o)
        s = H_var(A, zi, x)
        for l in recs_named("h"):
            k = l.ndim
            relate(l, (lambda i: app(s, (i[0], i[2], i[1]))) if k == 3 else (lambda i: app(s, (i[0], i[3], i[2]))), "loop variable h")
        ensures(y, (B, N) + (() if oi else (M,)), want_state(s, o), "h[t] = A[t] h[t-1] + x[t]", real)

    return run


def ob_rec(ad, xd, oi, real):
    def run():
        m = load.Loader().module("philtorch.lpv.ssm")
        B, N, M, A, zi, x = operands(ad, xd, real, "desc")
        o = pick_out(oi, M)
        U = size("U")
        f = m.state_space_recursion
        m.state_space_recursion = contract_rec("Y", (N,))
        m._recursion_loop = contract_loop
        m.matrices_cumdot = contract_cumdot
        y = f(A, zi, x, unroll_factor=U, out_idx=o)
        s = H_var(A, zi, x)
        u = cur().n(T.P_(U))
        for c in recs_named("Y"):
            cl = closed_var(s)
            relate(s, cl, "closed form of h")
            relate(c, lambda i: cl((i[0], (i[1] + 1) * u - 1, i[2])), "block ends")
        for c in recs_named("L"):
            if cur().n(c.shape[0]) == cur().n(T.P_(B)):
                continue
            q = len_blocks(c, B)
            def cand(i):
                b, k = cur().divmod(i[0], q)
                return cl((b, k * u + i[1], i[2]))
            relate(c, cand, "inside the blocks")
        ensures(y, (B, N) + (() if oi else (M,)), want_state(s, o), "h[t] = A[t] h[t-1] + x[t]", real)

    return run


def len_blocks(c, B):
    return recs_named("Y")[0].shape[1]


def ob_ext(ad, xd, oi, real):
    def run():
        ops.install()
        m = load.Loader().module("philtorch.lpv.ssm")
        B, N, M, A, zi, x = operands(ad, xd, real)
        o = pick_out(oi, M)
        y = m._ext_ss_recur(A, zi, x, unroll_factor=1, out_idx=o)
        s = H_var(A, zi, x)
        for c in recs_named("E"):
            relate(c, lambda i: app(s, i if c.ndim == 3 else (i[0], i[1], ZERO)), "the operator runs the recursion")
        ensures(y, (B, N) + (() if oi else (M,)), want_state(s, o), "h[t] = A[t] h[t-1] + x[t]", real)

    return run


for real in (True, False):
    r = "real" if real else "complex"
    for ad in (3, 4):
        for xd in (2, 3):
            for oi in (0, 1):
                nm = "A:%dd x:%dd%s %s" % (ad, xd, " out_idx" if oi else "", r)
                add(["C02"], "lpv/ssm._recursion_loop " + nm, "lpv/ssm.py:_recursion_loop", ob_loop(ad, xd, oi, real))
                add(["C02", "C04"], "lpv/ssm._ext_ss_recur " + nm, "lpv/ssm.py:_ext_ss_recur", ob_ext(ad, xd, oi, real))
                add(["C02"], "lpv/ssm.state_space_recursion " + nm, "lpv/ssm.py:state_space_recursion", ob_rec(ad, xd, oi, real))
