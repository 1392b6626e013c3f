"""Contracts of lti/ssm.py: matrix recursion, state space evaluation."""
from spec import *
import load
from contracts.scalar import need
from contracts.mat import contract_mpa, mat_power_entry, apply_relations

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


def entry(A):
    """(b, i, j) -> A[i, j] or A[b, i, j]"""
    f = T.freeze(A)
    if A.dim() == 2:
        return lambda b, i, j: f((i, j))
    return lambda b, i, j: f((b, i, j))


def drive(x):
    """(b, t, i) -> the input of state i: x[b, t, i], or x[b, t] for state 0 only."""
    f = T.freeze(x)
    if x.dim() == 3:
        return lambda b, t, i: f((b, t, i))
    return lambda b, t, i: (f((b, t)) if cur().eq0(i) else ZEROE)


def H_mat(A, zi, x, name="H"):
    """h[b,t,i] = sum_j A[i,j] h[b,t-1,j] + x[b,t,i]; h[b,-1,i] = zi[b,i]."""
    M = A.sh[-1]
    fa, fz, fx = entry(A), T.freeze(zi), drive(x)
    real = A._real and zi._real and x._real
    s = new_rec(name, (x.sh[0], x.sh[1], M), 1, None, None, real)
    s.rule = lambda i: Sum(ZERO, M, lambda j: fa(i[0], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fx(i[0], i[1], i[2])
    s.init = lambda i: fz((i[0], i[2]))
    s.parts = (A, M, fz, fx)
    return s


def closed_mat(s):
    """h[t] = A^(t+1) zi + sum_k A^(t-k) x[k]."""
    A, M, fz, fx = s.parts
    pw = mat_power_entry(A)
    bt = (lambda b: (b,)) if A.dim() == 3 else (lambda b: ())

    def cand(i):
        b, t, r = i
        return Sum(ZERO, M, lambda j: pw(bt(b), t + 1, r, j) * fz((b, j))) + Sum(
            ZERO, t + 1, lambda k: Sum(ZERO, M, lambda j: pw(bt(b), t - k, r, j) * fx(b, k, j)))

    return cand


def pre_recursion(who, A, zi, x, out_idx):
    need(x.dim() in (2, 3) and A.dim() in (2, 3) and A.size(-1) == A.size(-2), who + ": shapes")
    if A.dim() == 3:
        need(A.size(0) == x.size(0), who + ": batch of A")
    if x.dim() == 3:
        need(x.size(2) == A.size(-1), who + ": state size of x")
    need(zi.dim() == 2 and zi.size(0) == x.size(0) and zi.size(1) == A.size(-1), who + ": zi")
    need(x.size(1) >= 1, who + ": length")
    if out_idx is not None:
        need(out_idx >= 0 and out_idx < A.size(-1), who + ": out_idx")


def select(s, out_idx):
    t = rec_tensor(s)
    return t if out_idx is None else t[:, :, out_idx]


def contract_rec(name, measure=None):
    def state_space_recursion(A, zi, x, *, unroll_factor=1, out_idx=None):
        pre_recursion("state_space_recursion", A, zi, x, out_idx)
        need(unroll_factor >= 1, "state_space_recursion: unroll_factor")
        if measure is not None:
            need(x.size(1) < measure[0], "state_space_recursion: decreasing length")
        return select(H_mat(A, zi, x, name), out_idx)

    return state_space_recursion


def contract_loop(A, zi, x, out_idx=None):
    pre_recursion("_recursion_loop", A, zi, x, out_idx)
    return select(H_mat(A, zi, x, "L"), out_idx)


def operands(ad, xd, real, sq=None):
    B, N, M = size("B"), size("N"), size("M")
    A = arg("A", ((B,) if ad == 3 else ()) + (M, M), real, kind=sq)
    zi = arg("zi", (B, M), real)
    x = arg("x", (B, N) + ((M,) if xd == 3 else ()), real)
    x.sym.padpos = 1
    o = None
    return B, N, M, A, zi, x


def pick_out(oi, M):
    if not oi:
        return None
    o = size("o", 0)
    requires(o < M)
    return o


def want_state(s, o):
    if o is None:
        return lambda i: app(s, i)
    return lambda i: app(s, (i[0], i[1], T.P_(o)))


def ob_loop(ad, xd, oi, real):
    def run():
        m = load.Loader().module("philtorch.lti.ssm")
        B, N, M, A, zi, x = operands(ad, xd, real)
        o = pick_out(oi, M)
        y = m._recursion_loop(A, zi, x, out_idx=o)
        s = H_mat(A, zi, x)
        for l in recs_named("h"):
            k = l.ndim
            relate(l, (lambda i: app(s, (i[0], i[2], i[1]))) if k == 3 else (lambda i: app(s, (i[0], i[3], i[2]))), "loop variable h")
        ensures(y, (B, N) + (() if oi else (M,)), want_state(s, o), "h[t] = A h[t-1] + x[t]", real)

    return run


def ob_rec(ad, xd, oi, real):
    def run():
        m = load.Loader().module("philtorch.lti.ssm")
        B, N, M, A, zi, x = operands(ad, xd, real, "sq")
        o = pick_out(oi, M)
        U = size("U")
        f = m.state_space_recursion
        m.state_space_recursion = contract_rec("Y", (N,))
        m._recursion_loop = contract_loop
        m.matrix_power_accumulate = contract_mpa
        y = f(A, zi, x, unroll_factor=U, out_idx=o)
        s = H_mat(A, zi, x)
        for c in recs_named("Y"):
            cl = closed_mat(s)
            relate(s, cl, "closed form of h")
            relate(c, lambda i: cl((i[0], (i[1] + 1) * cur().n(T.P_(U)) - 1, i[2])), "block ends")
        ensures(y, (B, N) + (() if oi else (M,)), want_state(s, o), "h[t] = A h[t-1] + x[t]", real)

    return run


for real in (True, False):
    r = "real" if real else "complex"
    for ad in (2, 3):
        for xd in (2, 3):
            for oi in (0, 1):
                nm = "A:%dd x:%dd%s %s" % (ad, xd, " out_idx" if oi else "", r)
                add(["C01"], "lti/ssm._recursion_loop " + nm, "lti/ssm.py:_recursion_loop", ob_loop(ad, xd, oi, real))
                add(["C01"], "lti/ssm.state_space_recursion " + nm, "lti/ssm.py:state_space_recursion", ob_rec(ad, xd, oi, real))
