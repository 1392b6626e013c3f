"""Contracts of the registered operators (implemented by the compiled kernels; see engine 2 for the
obligations of the kernels themselves)."""
from spec import *
import load
from contracts.scalar import H_lti, H_lpv, need, one_or


def mentry(A, lead):
    """(b, t, i, j) -> entry of A with dims (lead..., i, j); lead is '' 'B' 'N' or 'BN'."""
    f = T.freeze(A)
    return lambda b, t, i, j: f(tuple({"B": b, "N": t}[c] for c in lead) + (i, j))


def H_state(fa, zi, x, M, real, name="H"):
    """h[b,t,i] = sum_j A[b,t,i,j] h[b,t-1,j] + x[b,t,i]."""
    fz, fx = T.freeze(zi), T.freeze(x)
    s = new_rec(name, (x.sh[0], x.sh[1], T.P_(M)), 1, None, None, real)
    s.rule = lambda i: Sum(ZERO, T.P_(M), lambda j: fa(i[0], i[1], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fx(i)
    s.init = lambda i: fz((i[0], i[2]))
    return s


def pre_lti_recur(a, init, x):
    need(x.dim() == 2 and init.dim() == 1 and a.dim() <= 1, "lti_recur: dimensions")
    need(init.size(0) == x.size(0), "lti_recur: batch of zi")
    need(one_or(a, x.size(0)), "lti_recur: batch of a")
    need(a._real == x._real and init._real == x._real, "lti_recur: dtypes")


def op_lti_recur(a, init, x):
    pre_lti_recur(a, init, x)
    return rec_tensor(H_lti(a, init, x, "E"))


def pre_lti_recurN(A, zi, x, two=False):
    w = "lti_recur2" if two else "lti_recurN"
    need(x.dim() == 3 and zi.dim() == 2 and A.dim() in (2, 3), w + ": dimensions")
    need(A.size(-1) == A.size(-2) and A.size(-1) == x.size(2) and zi.size(1) == x.size(2), w + ": state size")
    need(zi.size(0) == x.size(0), w + ": batch of zi")
    if A.dim() == 3:
        need(A.size(0) == x.size(0), w + ": batch of A")
    if two:
        need(x.size(2) == 2, w + ": two states")
    need(A._real == x._real and zi._real == x._real, w + ": dtypes")


def op_lti_recurN(A, zi, x, two=False):
    pre_lti_recurN(A, zi, x, two)
    return rec_tensor(H_state(mentry(A, "B" if A.dim() == 3 else ""), zi, x, A.sh[-1], x._real, "E"))


def op_lti_recur2(A, zi, x):
    return op_lti_recurN(A, zi, x, True)


def op_recurN(A, zi, x, two=False):
    w = "recur2" if two else "recurN"
    need(x.dim() == 3 and zi.dim() == 2 and A.dim() in (3, 4), w + ": dimensions")
    need(A.size(-1) == A.size(-2) and A.size(-1) == x.size(2) and zi.size(1) == x.size(2), w + ": state size")
    need(zi.size(0) == x.size(0) and A.size(-3) == x.size(1), w + ": batch of zi, length of A")
    if A.dim() == 4:
        need(A.size(0) == x.size(0), w + ": batch of A")
    if two:
        need(x.size(2) == 2, w + ": two states")
    need(A._real == x._real and zi._real == x._real, w + ": dtypes")
    return rec_tensor(H_state(mentry(A, "BN" if A.dim() == 4 else "N"), zi, x, A.sh[-1], x._real, "E"))


def op_recur2(A, zi, x):
    return op_recurN(A, zi, x, True)


def op_sample_wise_lpc(x, a, zi=None, return_zf=False):
    """torchlpc (assumed contract): y[b,t] = x[b,t] - sum_k a[b,t,k] y[b,t-1-k], y[b,-1-k] = zi[b,k]."""
    w = "sample_wise_lpc"
    need(not return_zf, w + ": return_zf is not used")
    need(x.dim() == 2 and a.dim() == 3 and x.size(0) == a.size(0) and x.size(1) == a.size(1), w + ": shapes")
    real = x._real
    need(a._real == real, w + ": dtypes")
    P = a.sh[2]
    if zi is not None:
        need(zi.dim() == 2 and zi.size(0) == x.size(0) and cur().eq0(zi.sh[1] - P) and zi._real == real, w + ": zi")
        fz = T.freeze(zi)
    fa, fx = T.freeze(a), T.freeze(x)
    one = cur().eq0(P - 1)
    s = new_rec("E", x.sh, 1, None, None, real, window=1 if one else P)
    s.rule = lambda i: fx(i) - Sum(ZERO, P, lambda k: fa((i[0], i[1], k)) * app(s, (i[0], i[1] - 1 - k)))
    s.init = lambda i: ZEROE if zi is None else fz((i[0], -1 - i[1]))
    return rec_tensor(s)


def install():
    load.OPS.table.clear()
    load.APPLY.clear()
    load.OPS.table.update(lti_recur=op_lti_recur, lti_recur2=op_lti_recur2, lti_recurN=op_lti_recurN, recur2=op_recur2, recurN=op_recurN, sample_wise_lpc=op_sample_wise_lpc)
    # the autograd Functions run forward, which calls the operators
