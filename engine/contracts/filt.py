"""Contracts of lti lfilter / _ssm_lfilter: the four structures, and their difference equation."""
from spec import *
import load
from contracts import ops
from contracts.scalar import need
from contracts.ltissm import entry, contract_rec
from contracts.fir import fir_value

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


def bread(t):
    """(b, *rest) -> entry of a shared or per-batch operand; nd: number of remaining axes"""
    f = T.freeze(t)

    def at(nd):
        if t.dim() == nd:
            return lambda b, *r: f(tuple(r))
        return lambda b, *r: f((b,) + tuple(r))

    return at


def shared_or_batched(who, t, nd, last, B):
    need(t.dim() in (nd, nd + 1), who + ": dimensions")
    if nd:
        need(t.size(-1) == last, who + ": state size")
    if t.dim() == nd + 1:
        need(t.size(0) == B, who + ": batch size")


def contract_state_space(A, x, B=None, C=None, D=None, zi=None, *, unroll_factor=None, out_idx=None):
    """lti state_space, two-dimensional input; scalar output (C vector per batch, or a selected state)."""
    need(x.dim() == 2 and A.dim() in (2, 3), "state_space: shapes")
    Bn, N, M = x.size(0), x.size(1), A.size(-1)
    need(A.size(-2) == M, "state_space: A square")
    if A.dim() == 3:
        need(A.size(0) == Bn, "state_space: batch of A")
    need(unroll_factor is None or unroll_factor >= 1, "state_space: unroll_factor")
    if B is not None:
        shared_or_batched("state_space: B", B, 1, M, Bn)
    need((C is None) == (out_idx is not None), "state_space: scalar output")
    if C is not None:
        shared_or_batched("state_space: C", C, 1, M, Bn)
    else:
        need(out_idx >= 0 and out_idx < M, "state_space: out_idx")
    if D is not None:
        shared_or_batched("state_space: D", D, 0, None, Bn)
    if zi is not None:
        shared_or_batched("state_space: zi", zi, 1, M, Bn)
    real = all(t is None or t._real for t in (A, x, B, C, D, zi))
    fa, fx = entry(A), T.freeze(x)
    MP = A.sh[-1]
    s = new_rec("X", (x.sh[0], x.sh[1], MP), 1, None, None, real)
    fb = bread(B)(1) if B is not None else (lambda b, i: T.toexpr(1) if cur().eq0(i) else ZEROE)
    s.rule = lambda i: Sum(ZERO, MP, lambda j: fa(i[0], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fb(i[0], i[2]) * fx((i[0], i[1]))
    fz = bread(zi)(1) if zi is not None else None
    s.init = lambda i: fz(i[0], i[2]) if fz else ZEROE
    if C is not None:
        fc = bread(C)(1)
        out = lambda b, t: Sum(ZERO, MP, lambda j: fc(b, j) * app(s, (b, t - 1, j)))
    else:
        o = T.P_(out_idx)
        out = lambda b, t: app(s, (b, t - 1, o))
    if D is not None:
        fd = bread(D)(0)
        base = out
        out = lambda b, t: base(b, t) + fd(b) * fx((b, t))
    y = T.Tensor(x.sh, lambda i: toexpr(out(*i)), real)
    if zi is None:
        return y
    return y, T.Tensor((x.sh[0], MP), lambda i: app(s, (i[0], x.sh[1] - 1, i[1])), real)


def contract_fir(b, x, zi=None, transpose=True):
    need(b.dim() == 2 and x.dim() == 2 and b.size(0) == x.size(0) and b.size(1) >= 1, "fir: shapes")
    need(zi is None or (zi.dim() == 2 and zi.size(0) == x.size(0) and zi.size(1) == b.size(1) - 1), "fir: zi")
    fb = T.freeze(b)
    y, zf = fir_value(lambda q, n, k: fb((q, k)), x, zi, transpose)(b.sh[1], x.sh[1])
    out = T.Tensor(x.sh, lambda i: toexpr(y(*i)), b._real and x._real)
    if zi is None:
        return out
    return out, T.Tensor(zi.sh, lambda i: toexpr(zf(*i)), b._real and x._real)


def coefs(b, a, bd, ad, K, Ma, M):
    """(q, k) -> b_k, (q, k) -> a_k padded with zeros to the common order."""
    gb, ga = bread(b)(1), bread(a)(1)

    def B_(q, k):
        return gb(q, k) if cur().ge0(cur().n(T.P_(K)) - 1 - k) else ZEROE

    def A_(q, k):
        return ga(q, k) if cur().ge0(cur().n(T.P_(Ma)) - 1 - k) else ZEROE

    return B_, A_


def ob_lfilter(form, bd, ad, xd, zk, rel, inner=False):
    def run():
        m = load.Loader().module("philtorch.lti.filtering")
        B, N = size("B") if xd == 2 else 1, size("N")
        Ma = size("Ma")
        if rel == "=":
            K = Ma + 1
        elif rel == "<":
            K = size("K")
            requires(K < Ma + 1)
        else:
            M = size("M")
            requires(Ma < M)
            K = M + 1
        if rel != ">":
            M = Ma
        b = arg("b", ((B,) if bd == 2 else ()) + (K,))
        a = arg("a", ((B,) if ad == 2 else ()) + (Ma,))
        x = arg("x", ((B,) if xd == 2 else ()) + (N,))
        zi = None if zk is None else arg("zi", ((B,) if zk == "bm" else ()) + (M,))
        U = size("U")
        m.state_space = contract_state_space
        m.fir = contract_fir
        m.state_space_recursion = contract_rec("X")
        r = m.lfilter(b, a, x, zi, form=form, backend="ssm", unroll_factor=U)
        BP, NP, MP = T.P_(B), T.P_(N), T.P_(M)
        fx0 = T.freeze(x)
        fx = fx0 if xd == 2 else (lambda i: fx0(i[1:]))
        bk, ak = coefs(b, a, bd, ad, K, Ma, M)
        gz = bread(zi)(1) if zi is not None else None

        def X_(q, t):
            return fx((q, t)) if cur().ge0(t) else ZEROE

        def past(sym, zero):
            """(q, t) -> sym[q, t]; zero before the start when the filter starts at rest"""
            return lambda q, t: app(sym, (q, t)) if not zero or cur().ge0(t) else ZEROE

        # the difference equation at rest
        yd = new_rec("Yd", (BP, NP), 1, None, None, True, window=MP)
        yd.rule = lambda i: Sum(ZERO, MP + 1, lambda k: bk(i[0], k) * X_(i[0], i[1] - k)) - Sum(ZERO, MP, lambda k: ak(i[0], k) * Y_(i[0], i[1] - 1 - k))
        Y_ = past(yd, True)
        yd.init = lambda i: ZEROE
        # direct form II: the delay line is the all-pole signal w
        w = new_rec("W", (BP, NP), 1, None, None, True, window=MP)
        w.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: ak(i[0], k) * W_(i[0], i[1] - 1 - k))
        W_ = past(w, not (gz is not None and form == 'df2'))
        w.init = lambda i: gz(i[0], -1 - i[1]) if gz is not None and form == "df2" else ZEROE
        # transposed direct form II: the delay line S
        s = new_rec("S", (BP, NP, MP), 1, None, None, True)

        def y2(q, t):
            return bk(q, ZERO) * fx((q, t)) + app(s, (q, t - 1, ZERO))

        def srule(i):
            q, t, k = i
            v = bk(q, k + 1) * fx((q, t)) - ak(q, k) * y2(q, t)
            if cur().ge0(MP - 2 - k):
                v = v + app(s, (q, t - 1, k + 1))
            return v

        s.rule = srule
        s.init = lambda i: gz(i[0], i[2]) if gz is not None and form == "tdf2" else ZEROE

        def wsum(i):
            return Sum(ZERO, MP + 1, lambda k: bk(i[0], k) * W_(i[0], i[1] - k))

        want_zf = None
        if form == "df2":
            for c in recs_named("X"):
                relate(c, lambda i: W_(i[0], i[1] - i[2]), "the state is the delay line of w")
            want = wsum
            want_zf = lambda i: W_(i[0], NP - 1 - i[1])
        elif form == "tdf2":
            for c in recs_named("X"):
                relate(c, lambda i: app(s, i), "the state is the transposed delay line")
            want = lambda i: y2(*i)
            want_zf = lambda i: app(s, (i[0], NP - 1, i[1]))
        elif form == "df1":
            for c in recs_named("X"):
                relate(c, lambda i: Y_(i[0], i[1] - i[2]), "the state holds past outputs")
            want = lambda i: app(yd, i)
        else:
            # all-pole section in transposed form
            for c in recs_named("X"):
                relate(c, lambda i: W_(i[0], i[1]) if cur().eq0(i[2]) else -Sum(i[2], MP, lambda k: ak(i[0], k) * W_(i[0], i[1] - 1 - k + i[2])), "the state of the transposed all-pole section")
            want = wsum
        if zk is not None and form in ("df2", "tdf2"):
            if not isinstance(r, (tuple, list)) or len(r) != 2:
                raise Refuted("no final state is returned")
            r, zf = r
            zsh = (B, M) if not (xd == 1 and bd == 1 and ad == 1 and zk == "m") else (M,)
            ensures(zf, zsh, lambda i: want_zf(i if len(zsh) == 2 else (ZERO,) + tuple(i)), "final state: the delay line after the last sample", True)
        elif isinstance(r, tuple):
            raise Refuted("a final state is returned without zi")
        squeeze = xd == 1 and bd == 1 and ad == 1 and zk != "bm"
        up = (lambda f: (lambda i: toexpr(f((ZERO,) + tuple(i))))) if squeeze else (lambda f: (lambda i: toexpr(f(i))))
        osh = (N,) if squeeze else (B, N)
        ensures(r, osh, up(want), "output of the structure", True)
        if zk is None or form in ("df1", "tdf1"):
            if form == "tdf2":
                relate(s, lambda i: Sum(i[2], MP, lambda k: bk(i[0], k + 1) * X_(i[0], i[1] - k + i[2]) - ak(i[0], k) * Y_(i[0], i[1] - k + i[2])), "the delay line at rest")
            elif form in ("df2", "tdf1"):
                express(x.sym, lambda i: (lambda q, t: app(w, (q, t)) + Sum(ZERO, MP, lambda k: ak(q, k) * W_(q, t - 1 - k)))(*(i if xd == 2 else (ZERO,) + tuple(i))), w, "x in terms of w")
                relate(yd, wsum, "the numerator applied to w solves the difference equation")
            ensures(r, osh, up(lambda i: app(yd, i)), "y[n] = sum_k b[k] x[n-k] - sum_k a[k] y[n-k]", True)

    return run


for form in ("df2", "tdf2", "df1", "tdf1"):
    for rel in "=<>":
        for xd in (2, 1):
            for bd in (1, 2):
                for ad in (1, 2):
                    for zk in (None, "m", "bm"):
                        if xd == 1 and (bd != 1 or ad != 1) and zk is not None:
                            continue
                        add(["C07"], "lti/filtering.lfilter %s order b%sa b:%dd a:%dd x:%dd zi:%s" % (form, rel, bd, ad, xd, zk), "lti/filtering.py:lfilter", ob_lfilter(form, bd, ad, xd, zk, rel))


# ---------------------------------------------------------------- diagonal backend
def contract_diag_state_space(x, *, A=None, L=None, V=None, Vinv=None, B=None, C=None, D=None, zi=None, out_idx=None, unroll_factor=None):
    """diag_state_space for a diagonalisable A: the same values as state_space, held in a complex tensor."""
    need(A is not None, "diag_state_space: A")
    r = contract_state_space(A, x, B, C, D, zi, unroll_factor=unroll_factor, out_idx=out_idx)
    asc = lambda t: T.Tensor(t.sh, t.at, False)
    return tuple(asc(t) for t in r) if isinstance(r, tuple) else asc(r)


def contract_polydiv(dividend, q_sh, r_sh, setup):
    """polydiv: u = q v + r; the quotient and the remainder are new unknowns and u is read through them."""

    def polydiv(u, v):
        return setup(u, v)

    return polydiv


def ob_diag_lfilter(form, bd, ad, xd, zk, rel, delayed=False):
    def run():
        m = load.Loader().module("philtorch.lti.filtering")
        B, N = size("B") if xd == 2 else 1, size("N")
        Ma = size("Ma")
        if rel == "=":
            K = Ma + 1
        elif rel == "<":
            K = size("K")
            requires(K < Ma + 1)
        else:
            E = size("E")  # K - 1 - Ma
            K = Ma + 1 + E
        b = arg("b", ((B,) if bd == 2 else ()) + (K,))
        a = arg("a", ((B,) if ad == 2 else ()) + (Ma,))
        x = arg("x", ((B,) if xd == 2 else ()) + (N,))
        zi = None if zk is None else arg("zi", ((B,) if zk == "bm" else ()) + (Ma,))
        U = size("U")
        m.diag_state_space = contract_diag_state_space
        m.fir = contract_fir
        BP, NP, MP, KP = T.P_(B), T.P_(N), T.P_(Ma), T.P_(K)
        fx0 = T.freeze(x)
        fx = fx0 if xd == 2 else (lambda i: fx0(i[1:]))
        X_ = lambda q, t: fx((q, t)) if cur().ge0(t) else ZEROE
        zf_ = T.freeze(b), T.freeze(a)
        fa = bread(a)(1)
        state = {}
        lead = (B,) if bd == 2 or ad == 2 else ()

        def polydiv(u, v):
            need(rel == ">", "polydiv: only for longer numerators")
            b0, a0 = T.freeze(b), T.freeze(a)
            if delayed:
                ub, va = (lambda i: b0(i)), (lambda i: (a0(i[:-1] + (i[-1] - 1,)) if cur().ge0(i[-1] - 1) else T.toexpr(1)))
            else:
                ub = lambda i: b0(i[:-1] + (KP - 1 - i[-1],))
                va = lambda i: (T.toexpr(1) if cur().eq0(MP - i[-1]) else a0(i[:-1] + (MP - 1 - i[-1],)))
            same_shape(u, b.sh, "polydiv: dividend")
            same_shape(v, a.sh[:-1] + (MP + 1,), "polydiv: divisor")
            prove_equal_at(u.sh, u.at, ub, "polydiv: dividend")
            prove_equal_at(v.sh, v.at, va, "polydiv: divisor")
            qn = KP - MP
            Q, R = T.sym_tensor("q", lead + (qn,), True), T.sym_tensor("r", lead + (MP,), True)
            fq, fr = T.freeze(Q), T.freeze(R)
            # u = q v + r, read at b
            l = (lambda i: tuple(i[:-1]) if lead else ()) if (bd == 2 or not lead) else None
            state["Q"], state["R"] = Q, R
            bl = lambda i: (tuple(i[:-1]) if bd == 2 else (ZERO,) if lead else ())

            def value(i):
                if bd == 1 and lead:
                    raise Unsupported("shared numerator, per-batch denominator")
                k = i[-1] if delayed else KP - 1 - i[-1]
                e = bl(i)
                ev = e if ad == 2 else ()
                tot = Sum(ZERO, qn, lambda j: (fq(e + (j,)) * va(ev + (k - j,))) if cur().ge0(k - j) and cur().ge0(MP + j - k) else ZEROE)
                if cur().ge0(k - qn):
                    tot = tot + fr(e + (k - qn,))
                return tot

            cur().rel[b.sym.name] = value
            return Q, R

        m.polydiv = polydiv
        kw = dict(delayed_form=True) if delayed else {}
        r = m.lfilter(b, a, x, zi, form=form, backend="diag_ssm", unroll_factor=U, **kw)
        gz = bread(zi)(1) if zi is not None else None
        # the part with a numerator no longer than the denominator
        if rel == ">":
            fr, fq = T.freeze(state["R"]), T.freeze(state["Q"])
            le = (lambda q: (q,)) if lead else (lambda q: ())
            if delayed:
                nk, n_ = MP + 1, None
                bk = lambda q, k: fr(le(q) + (k,)) if cur().ge0(MP - 1 - k) else ZEROE
                qk = lambda q, k: fq(le(q) + (k,))
                delay = KP - MP
            else:
                bk = lambda q, k: fr(le(q) + (MP - 1 - k,)) if cur().ge0(MP - 1 - k) else ZEROE
                qk = lambda q, k: fq(le(q) + (KP - MP - 1 - k,))
                delay = ZERO
        else:
            bk, _ = coefs(b, a, bd, ad, K, Ma, Ma)
        ak = fa
        Mo = MP
        yd = new_rec("Yd", (BP, NP), 1, None, None, True, window=MP)
        Y_ = lambda q, t: app(yd, (q, t)) if cur().ge0(t) else ZEROE
        yd.rule = lambda i: Sum(ZERO, MP + 1, lambda k: bk(i[0], k) * X_(i[0], i[1] - k)) - Sum(ZERO, MP, lambda k: ak(i[0], k) * Y_(i[0], i[1] - 1 - k))
        yd.init = lambda i: ZEROE
        zero = not (gz is not None and form == "df2")
        w = new_rec("W", (BP, NP), 1, None, None, True, window=MP)
        W_ = lambda q, t: app(w, (q, t)) if not zero or cur().ge0(t) else ZEROE
        w.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: ak(i[0], k) * W_(i[0], i[1] - 1 - k))
        w.init = lambda i: gz(i[0], -1 - i[1]) if not zero else ZEROE
        s = new_rec("S", (BP, NP, MP), 1, None, None, True)
        y2 = lambda q, t: bk(q, ZERO) * fx((q, t)) + app(s, (q, t - 1, ZERO))

        def srule(i):
            q, t, k = i
            v = bk(q, k + 1) * fx((q, t)) - ak(q, k) * y2(q, t)
            return v + app(s, (q, t - 1, k + 1)) if cur().ge0(MP - 2 - k) else v

        s.rule = srule
        s.init = lambda i: gz(i[0], i[2]) if gz is not None and form == "tdf2" else ZEROE
        wsum = lambda i: Sum(ZERO, MP + 1, lambda k: bk(i[0], k) * W_(i[0], i[1] - k))
        if form == "df2":
            for c in recs_named("X"):
                relate(c, lambda i: W_(i[0], i[1] - i[2]), "the state is the delay line of w")
            want, want_zf = wsum, lambda i: W_(i[0], NP - 1 - i[1])
        else:
            for c in recs_named("X"):
                relate(c, lambda i: app(s, i), "the state is the transposed delay line")
            want, want_zf = (lambda i: y2(*i)), lambda i: app(s, (i[0], NP - 1, i[1]))
        squeeze = xd == 1 and bd == 1 and ad == 1 and zk != "bm"
        up = (lambda f: (lambda i: toexpr(f((ZERO,) + tuple(i))))) if squeeze else (lambda f: (lambda i: toexpr(f(i))))
        osh = (N,) if squeeze else (B, N)
        if zk is not None:
            if not isinstance(r, (tuple, list)) or len(r) != 2:
                raise Refuted("no final state is returned")
            r, z = r
            ensures(z, (Ma,) if squeeze else (B, Ma), up(want_zf), "final state: the delay line after the last sample", True)
            ensures(r, osh, up(want), "output of the structure", True)
            return
        if isinstance(r, tuple):
            raise Refuted("a final state is returned without zi")
        if form == "tdf2":
            relate(s, lambda i: Sum(i[2], MP, lambda k: bk(i[0], k + 1) * X_(i[0], i[1] - k + i[2]) - ak(i[0], k) * Y_(i[0], i[1] - k + i[2])), "the delay line at rest")
        if rel == ">":
            # the whole difference equation, with the numerator read as q a + r
            gb = bread(b)(1)
            tot = new_rec("Yt", (BP, NP), 1, None, None, True, window=MP)
            T_ = lambda q, t: app(tot, (q, t)) if cur().ge0(t) else ZEROE
            tot.rule = lambda i: Sum(ZERO, KP, lambda k: gb(i[0], k) * X_(i[0], i[1] - k)) - Sum(ZERO, MP, lambda k: ak(i[0], k) * T_(i[0], i[1] - 1 - k))
            tot.init = lambda i: ZEROE
            cand = lambda i: Sum(ZERO, KP - MP, lambda j: qk(i[0], j) * X_(i[0], i[1] - j)) + (Y_(i[0], i[1] - delay))
            relate(tot, cand, "quotient and remainder filters add up to the whole filter")
            final = tot
        else:
            final = yd
        if form == "df2":
            express(x.sym, lambda i: (lambda q, t: app(w, (q, t)) + Sum(ZERO, MP, lambda k: ak(q, k) * W_(q, t - 1 - k)))(*(i if xd == 2 else (ZERO,) + tuple(i))), w, "x in terms of w")
            relate(yd, wsum, "the numerator applied to w solves the difference equation")
        ensures(r, osh, up(lambda i: app(final, i)), "y[n] = sum_k b[k] x[n-k] - sum_k a[k] y[n-k]", True)

    return run


for form in ("df2", "tdf2"):
    for rel in "=<>":
        for xd in (2, 1):
            for bd in (1, 2):
                for ad in (1, 2):
                    for zk in (None, "m", "bm"):
                        if (xd == 1 and (bd != 1 or ad != 1) and zk is not None) or (rel == ">" and (zk is not None or (bd == 1 and ad == 2))):
                            continue
                        for dl in (False, True) if rel == ">" else (False,):
                            add(["C07"], "lti/filtering.lfilter diag_ssm%s %s order b%sa b:%dd a:%dd x:%dd zi:%s" % (" delayed" if dl else "", form, rel, bd, ad, xd, zk),
                                "lti/filtering.py:_diag_ssm_lfilter", ob_diag_lfilter(form, bd, ad, xd, zk, rel, dl))
