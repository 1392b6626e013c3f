"""Contracts of lpv lfilter: the four structures with time-varying coefficients, both backends."""
from spec import *
import load
from contracts import ops
from contracts.ops import mentry
from contracts.scalar import need
from contracts.lpvssm import contract_rec, contract_ext, lead
from contracts.fir import fir_value

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


def tread(t, nd):
    """(b, t, *rest): operand with a time axis, shared or per batch."""
    f = T.freeze(t)
    if t.dim() == nd:
        return lambda b, *r: f(tuple(r))
    return lambda b, *r: f((b,) + tuple(r))


def varying(who, t, nd, B, N, last=None):
    need(t.dim() in (nd, nd + 1), who + ": dimensions")
    need(t.size(-nd) == N, who + ": time axis")
    if last is not None:
        need(t.size(-1) == last, who + ": state size")
    if t.dim() == nd + 1:
        need(t.size(0) == B, who + ": batch axis")


def contract_state_space(A, x, B=None, C=None, D=None, zi=None, *, unroll_factor=None, out_idx=None):
    """lpv state_space for two-dimensional input, operands with a time axis, scalar output."""
    need(x.dim() == 2 and A.dim() in (3, 4), "state_space: shapes")
    Bn, N, M = x.size(0), x.size(1), A.size(-1)
    need(A.size(-2) == M, "state_space: A square")
    varying("state_space: A", A, 3, Bn, N, M)
    need(unroll_factor is None or unroll_factor >= 1, "state_space: unroll_factor")
    if B is not None:
        varying("state_space: B", B, 2, Bn, N, M)
    need((C is None) == (out_idx is not None), "state_space: scalar output")
    if C is not None:
        varying("state_space: C", C, 2, Bn, N, M)
    else:
        need(out_idx >= 0 and out_idx < M, "state_space: out_idx")
    if D is not None and D.dim():
        varying("state_space: D", D, 1, Bn, N)
    if zi is not None:
        need(zi.dim() in (1, 2) and zi.size(-1) == M and (zi.dim() == 1 or zi.size(0) == Bn), "state_space: zi")
    real = all(t is None or t._real for t in (A, x, B, C, D, zi))
    fa, fx = mentry(A, lead(A)), T.freeze(x)
    MP = A.sh[-1]
    s = new_rec("X", (x.sh[0], x.sh[1], MP), 1, None, None, real)
    fb = tread(B, 2) if B is not None else (lambda b, t, i: toexpr(1) if cur().eq0(i) else ZEROE)
    s.rule = lambda i: Sum(ZERO, MP, lambda j: fa(i[0], i[1], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fb(i[0], i[1], i[2]) * fx((i[0], i[1]))
    fz = tread(zi, 1) if zi is not None else None
    s.init = lambda i: fz(i[0], i[2]) if fz else ZEROE
    if C is not None:
        fc = tread(C, 2)
        out = lambda b, t: Sum(ZERO, MP, lambda j: fc(b, t, j) * app(s, (b, t - 1, j)))
    else:
        o = T.P_(out_idx)
        out = lambda b, t: app(s, (b, t - 1, o))
    if D is not None:
        f0 = T.freeze(D)
        fd = tread(D, 1) if D.dim() else (lambda b, t: f0(()))
        base = out
        out = lambda b, t: base(b, t) + fd(b, t) * fx((b, t))
    y = T.Tensor(x.sh, lambda i: toexpr(out(*i)), real)
    if zi is None:
        return y
    return y, T.Tensor((x.sh[0], MP), lambda i: app(s, (i[0], x.sh[1] - 1, i[1])), real)


def contract_fir(b, x, zi=None, transpose=False):
    need(b.dim() == 3 and x.dim() == 2 and b.size(0) == x.size(0) and b.size(1) == x.size(1) and b.size(2) >= 1, "fir: shapes")
    need(zi is None or (zi.dim() == 2 and zi.size(0) == x.size(0) and zi.size(1) == b.size(2) - 1), "fir: zi")
    fb = T.freeze(b)
    y, zf = fir_value(lambda q, n, k: fb((q, n, k)), x, zi, transpose)(b.sh[2], x.sh[1])
    out = T.Tensor(x.sh, lambda i: toexpr(y(*i)), b._real and x._real)
    if zi is None:
        return out
    return out, T.Tensor(zi.sh, lambda i: toexpr(zf(*i)), b._real and x._real)


def contract_allpole(a, x, zi=None, transpose=False):
    need(a.dim() == 3 and x.dim() == 2 and a.size(0) == x.size(0) and a.size(1) == x.size(1) and a.size(2) >= 1, "allpole: shapes")
    need(zi is None or (zi.dim() == 2 and zi.size(0) == x.size(0) and zi.size(1) == a.size(2)), "allpole: zi")
    need(not (transpose and zi is not None), "allpole: transposed memory is not used here")
    fa, fx = T.freeze(a), T.freeze(x)
    fz = T.freeze(zi) if zi is not None else None
    MP = a.sh[2]
    s = new_rec("V", x.sh, 1, None, None, True, window=MP)
    past = lambda q, t: app(s, (q, t)) if fz is not None or cur().ge0(t) else ZEROE
    if transpose:
        s.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: (fa((i[0], i[1] - 1 - k, k)) * app(s, (i[0], i[1] - 1 - k))) if cur().ge0(i[1] - 1 - k) else ZEROE)
    else:
        s.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: fa((i[0], i[1], k)) * past(i[0], i[1] - 1 - k))
    s.init = lambda i: fz((i[0], -1 - i[1])) if fz is not None else ZEROE
    y = rec_tensor(s)
    if zi is None:
        return y
    return y, T.Tensor(zi.sh, lambda i: past(i[0], x.sh[1] - 1 - i[1]), True)


def ob_lfilter(backend, ext, form, bd, ad, xd, zk, rel):
    def run():
        m = load.Loader(ext=ext).module("philtorch.lpv.filtering")
        B, N = size("B") if xd == 2 else 1, size("N")
        if rel == "=":
            Ma = M = size("Ma")
            K = Ma + 1
        elif rel == "<":
            Ma = M = size("Ma")
            K = size("K")
            requires(K < Ma + 1)
        else:
            Ma, M = size("Ma"), size("M")
            requires(Ma < M)
            K = M + 1
        b = arg("b", ((B,) if bd == 3 else ()) + (N, K))
        a = arg("a", ((B,) if ad == 3 else ()) + (N, Ma))
        x = arg("x", ((B,) if xd == 2 else ()) + (N,))
        zi = None if zk is None else arg("zi", ((B,) if zk == "bm" else ()) + (M,))
        m.state_space = contract_state_space
        m.fir = contract_fir
        m.allpole = contract_allpole
        m.state_space_recursion = contract_rec("X")
        m._ext_ss_recur = lambda A, zi, x, *, unroll_factor=None, out_idx=None: contract_ext(A, zi, x, out_idx=out_idx)
        kw = dict(unroll_factor=size("U")) if backend == "ssm" else {}
        r = m.lfilter(b, a, x, zi, form=form, backend=backend, **kw)
        BP, NP, MP = T.P_(B), T.P_(N), T.P_(M)
        fx0 = T.freeze(x)
        fx = fx0 if xd == 2 else (lambda i: fx0(i[1:]))
        gb, ga = tread(b, 2), tread(a, 2)
        bk = lambda q, t, k: gb(q, t, k) if cur().ge0(cur().n(T.P_(K)) - 1 - k) else ZEROE
        ak = lambda q, t, k: ga(q, t, k) if cur().ge0(cur().n(T.P_(Ma)) - 1 - k) else ZEROE
        gz = tread(zi, 1) if zi is not None else None
        X_ = lambda q, t: fx((q, t)) if cur().ge0(t) else ZEROE

        def past(sym, zero):
            return lambda q, t: app(sym, (q, t)) if not zero or cur().ge0(t) else ZEROE

        recs = lambda: recs_named("X") + recs_named("V")
        want_zf = None
        if form == "df2":
            zero = gz is None
            w = new_rec("W", (BP, NP), 1, None, None, True, window=MP)
            W_ = past(w, zero)
            w.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: ak(i[0], i[1], k) * W_(i[0], i[1] - 1 - k))
            w.init = lambda i: gz(i[0], -1 - i[1]) if not zero else ZEROE
            for c in recs():
                if c.ndim == 3:
                    relate(c, lambda i: W_(i[0], i[1] - i[2]), "the state is the delay line of w")
                else:
                    relate(c, lambda i: W_(*i), "the all-pole section computes w")
            want = lambda i: Sum(ZERO, MP + 1, lambda k: bk(i[0], i[1], k) * W_(i[0], i[1] - k))
            want_zf = lambda i: W_(i[0], NP - 1 - i[1])
        elif form == "tdf2":
            s = new_rec("S", (BP, NP, MP), 1, None, None, True)
            y2 = lambda q, t: bk(q, t, ZERO) * fx((q, t)) + app(s, (q, t - 1, ZERO))

            def srule(i):
                q, t, k = i
                v = bk(q, t, k + 1) * fx((q, t)) - ak(q, t, k) * y2(q, t)
                return v + app(s, (q, t - 1, k + 1)) if cur().ge0(MP - 2 - k) else v

            s.rule = srule
            s.init = lambda i: gz(i[0], i[2]) if gz is not None else ZEROE
            for c in recs():
                relate(c, lambda i: app(s, i), "the state is the transposed delay line")
            want = lambda i: y2(*i)
            want_zf = lambda i: app(s, (i[0], NP - 1, i[1]))
        elif form == "df1":
            yd = new_rec("Yd", (BP, NP), 1, None, None, True, window=MP)
            Y_ = past(yd, True)
            yd.rule = lambda i: Sum(ZERO, MP + 1, lambda k: bk(i[0], i[1], k) * X_(i[0], i[1] - k)) - Sum(ZERO, MP, lambda k: ak(i[0], i[1], k) * Y_(i[0], i[1] - 1 - k))
            yd.init = lambda i: ZEROE
            for c in recs():
                if c.ndim == 3:
                    relate(c, lambda i: Y_(i[0], i[1] - i[2]), "the state holds past outputs")
                else:
                    relate(c, lambda i: Y_(*i), "the all-pole section computes the output")
            want = lambda i: app(yd, i)
        else:
            v = new_rec("P", (BP, NP), 1, None, None, True, window=MP)
            V_ = past(v, True)

            def old(q, t, k):
                """what the output at time t adds to the sample k + 1 later"""
                return ak(q, t, k) * app(v, (q, t)) if cur().ge0(t) else ZEROE

            v.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: old(i[0], i[1] - 1 - k, k))
            v.init = lambda i: ZEROE
            if backend == "ssm":
                express(x.sym, lambda i: (lambda q, t: app(v, (q, t)) + Sum(ZERO, MP, lambda k: old(q, t - 1 - k, k)))(*(i if xd == 2 else (ZERO,) + tuple(i))), v, "x in terms of the all-pole section")
            for c in recs():
                if c.ndim == 3:
                    relate(c, lambda i: -Sum(i[2], MP, lambda k: old(i[0], i[1] - k + i[2], k)), "the delay line of the transposed all-pole section")
                else:
                    relate(c, lambda i: V_(*i), "the transposed all-pole section")

            def want(i):
                return Sum(ZERO, MP + 1, lambda k: bk(i[0], i[1] - k, k) * V_(i[0], i[1] - k) if cur().ge0(i[1] - k) else ZEROE)
        squeeze = xd == 1 and bd == 2 and ad == 2 and zk != "bm"
        up = (lambda f: (lambda i: toexpr(f((ZERO,) + tuple(i))))) if squeeze else (lambda f: (lambda i: toexpr(f(i))))
        if zk is not None and form in ("df2", "tdf2"):
            if not isinstance(r, (tuple, list)) or len(r) != 2:
                raise Refuted("no final state is returned")
            r, zf = r
            ensures(zf, (M,) if squeeze else (B, M), up(want_zf), "final state: the delay line after the last sample", True)
        elif isinstance(r, tuple):
            raise Refuted("a final state is returned without zi")
        ensures(r, (N,) if squeeze else (B, N), up(want), "output of the structure with the coefficients of each sample", True)

    return run


for form in ("df2", "tdf2", "df1", "tdf1"):
    for backend in ("ssm", "torchlpc"):
        if backend == "torchlpc" and form == "tdf2":
            continue
        for rel in "=<>":
            for xd in (2, 1):
                for bd in (2, 3):
                    for ad in (2, 3):
                        for zk in (None, "m", "bm"):
                            if xd == 1 and (bd != 2 or ad != 2) and zk is not None:
                                continue
                            for ext in (True, False) if backend == "ssm" and form == "df1" else (True,):
                                add(["C08"], "lpv/filtering.lfilter %s%s %s order b%sa b:%dd a:%dd x:%dd zi:%s" % (backend, "" if ext else " no-ext", form, rel, bd, ad, xd, zk),
                                    "lpv/filtering.py:lfilter", ob_lfilter(backend, ext, form, bd, ad, xd, zk, rel))
