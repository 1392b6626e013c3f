"""C10: the real functions run on two consecutive chunks, the second from the first one's final state, against the
specification of the whole signal (any split into chunks follows by induction: every chunk may be split again)."""
from spec import *
import load
from contracts import ops, filt, lpvfilt, fir, comb, ltistate, lpvstate, lpvssm, ltissm
from contracts.ops import mentry
from contracts.scalar import contract_lti_lr
from contracts.ltissm import entry, pick_out

OBLIGATIONS = []


def add(name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=["C10"], name="split " + name, function=function, fn=fn, **k))


def lengths():
    N1, N2 = size("N1"), size("N2")
    return N1, N2, N1 + N2


def pair(r, what):
    if not isinstance(r, (tuple, list)) or len(r) != 2:
        raise Refuted(what + ": no final state is returned")
    return r


def rel2(names, cand, N1, what, pick=lambda c: True):
    """The recursions of the first and the second call are the first and the second part of one recursion."""
    rs = [c for n in names for c in recs_named(n) if pick(c)]
    if len(rs) % 2 and not FRAME[0] and CONCRETE[0] is None:
        raise Unsupported("the two calls run different numbers of recursions")
    h = len(rs) // 2
    for c in rs[:h]:
        relate(c, lambda i, c=c: cand(c, i), what)
    for c in rs[h:]:
        relate(c, lambda i, c=c: cand(c, (i[0], i[1] + T.P_(N1)) + tuple(i[2:])), what)


def check2(r1, r2, N1, N2, lead, tail, y, zsh, z, real=None, nb=1):
    """y(i) with the instant at position nb of the index, z(instant, i)."""
    n1, n2 = T.P_(N1), T.P_(N2)
    (y1, z1), (y2, z2) = r1, r2
    shift = lambda i: tuple(i[:nb]) + (i[nb] + n1,) + tuple(i[nb + 1:])
    ensures(y1, lead + (N1,) + tail, lambda i: toexpr(y(i)), "output of the first chunk", real)
    ensures(z1, zsh, lambda i: toexpr(z(n1 - 1, i)), "state after the first chunk", real)
    ensures(y2, lead + (N2,) + tail, lambda i: toexpr(y(shift(i))), "output of the second chunk continues the first", real)
    ensures(z2, zsh, lambda i: toexpr(z(n1 + n2 - 1, i)), "final state of the whole signal", real)


# ---------------------------------------------------------------- state space
def ob_ss(lpv, ext, ad, xd, bf, cf, df, zk, oi, real):
    mod = lpvstate if lpv else ltistate

    def run():
        m = load.Loader(ext=ext).module("philtorch.%s.ssm" % ("lpv" if lpv else "lti"))
        N1, N2, N = lengths()
        d = dict(b=size("B"), n=N, m=size("M"), o=size("O"), **{"1": 1})
        if xd == 3:
            d["f"] = size("F")
        B, M = d["b"], d["m"]
        if xd == 3 and bf is None:
            d["f"] = M
        if cf is None and not oi:
            d["o"] = M
        if lpv:
            for n in (N1, N2, N):  # each call has its own length
                lpvstate.unambiguous(dict(d, n=n), bf, cf, df)
        else:
            ltistate.unambiguous(d, bf, cf, df, xd)
        x = arg("x", (B, N) + ((d["f"],) if xd == 3 else ()), real)
        A = arg("A", (((B,) if ad == 4 else ()) + (N, M, M)) if lpv else (((B,) if ad == 3 else ()) + (M, M)), real)
        Bm, C, D = (ltistate.operand(n, f, d, real) for n, f in (("B", bf), ("C", cf), ("D", df)))
        zi = ltistate.operand("zi", zk, d, real)
        o = pick_out(oi, M)
        U = size("U")
        if lpv:
            m.state_space_recursion = lpvssm.contract_rec("Y")
            m._ext_ss_recur = lpvssm.contract_ext
        else:
            m.state_space_recursion = ltissm.contract_rec("Y")
            m._ext_ss_recur = ltistate.contract_ext
            m._ssm_C_D = ltistate.contract_CD(cf, df, d, oi)

        def part(t, form, lo, hi):
            """rows lo..hi of an operand's time axis"""
            if t is None or form is None or "n" not in form:
                return t
            k = form.index("n")
            return t[(slice(None),) * k + (slice(lo, hi),)]

        af = ("b" if ad == 4 else "") + "nmm" if lpv else "mm"

        def call(z, lo, hi):
            return pair(m.state_space(part(A, af, lo, hi), x[:, lo:hi], part(Bm, bf, lo, hi), part(C, cf, lo, hi), part(D, df, lo, hi), z,
                                      unroll_factor=U, out_idx=o), "state_space")

        r1 = call(zi, None, N1)
        r2 = call(r1[1], N1, None)
        s = (lpvstate.state_spec(A, x, Bm, bf, d, zi, zk, real, "H"))if lpv else lti_spec(A, x, Bm, bf, d, zi, zk, real)
        rel2(("Y", "X"), lambda c, i: app(s, i), N1, "one recursion over the whole signal")
        h = lambda b, t, i: app(s, (b, t - 1, i))
        vo = mod.vecout(cf, oi)
        fc = (lambda b, t, o_=None: h(b, t, T.P_(o))) if oi else mod.out_C(C, cf, h, M)
        fd = mod.out_D(D, df, x, d) if D is not None else None
        check2(r1, r2, N1, N2, (B,), (d["o"],) if vo else (), lambda i: toexpr(fc(*i)) + (fd(*i) if fd is not None else ZEROE),
               (B, M), lambda t, i: app(s, (i[0], t, i[1])), real)

    return run


def lti_spec(A, x, Bm, bf, d, zi, zk, real):
    fz, fb, fa, MP = ltistate.mget(zi, zk), ltistate.drive_B(Bm, bf, x, d), entry(A), T.P_(d["m"])
    s = new_rec("H", (T.P_(d["b"]), T.P_(d["n"]), MP), 1, None, None, real)
    s.rule = lambda i: Sum(ZERO, MP, lambda j: fa(i[0], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fb(i[0], i[1], i[2])
    s.init = lambda i: fz(b=i[0], m=i[2])
    return s


GRID = []
for real in (True, False):
    for ext in (True, False):
        for ad in (2, 3):
            for xd in (2, 3):
                for bf in ltistate.B_FORMS[xd]:
                    for zk in ("m", "bm"):
                        for oi in (0, 1):
                            for cf in (None,) if oi else ltistate.C_FORMS:
                                for df in (None,) + ltistate.D_FORMS[xd][ltistate.vecout(cf, oi)]:
                                    GRID.append((0, ext, ad, xd, bf, cf, df, zk, oi, real))
        for ad in (3, 4):
            for xd in (2, 3):
                for bf in lpvstate.B_FORMS[xd]:
                    for zk in ("m", "bm"):
                        for oi in (0, 1):
                            for cf in (None,) if oi else lpvstate.C_FORMS:
                                for df in (None,) + lpvstate.D_FORMS[xd][lpvstate.vecout(cf, oi)]:
                                    GRID.append((1, ext, ad, xd, bf, cf, df, zk, oi, real))
KEYS = [lambda g: (g[0], g[3], g[4], g[9]), lambda g: (g[0], g[5], g[8]), lambda g: (g[0], g[3], g[6], g[8]), lambda g: (g[0], g[1], g[2], g[7])]
QUICK = cover_random(GRID, 1, KEYS)
ALL = (cover_random(GRID, 3, KEYS) | QUICK) if THOROUGH else QUICK
for g in GRID:
    if g in ALL:
        lpv, ext, ad, xd, bf, cf, df, zk, oi, real = g
        p = "lpv" if lpv else "lti"
        add("%s/ssm.state_space %s A:%dd x:%dd B:%s C:%s D:%s zi:%s%s %s" % (p, "ext" if ext else "no-ext", ad, xd, bf, cf, df, zk, " out_idx" if oi else "", "real" if real else "complex"),
            p + "/ssm.py:state_space", ob_ss(*g), thorough=g not in QUICK)


# ---------------------------------------------------------------- diagonal state space
def ob_diag(ext, given, batched, xd, bf, cf, df, zk, oi, areal, vreal):
    def run():
        ops.install()
        m = load.Loader(ext=ext).module("philtorch.lti.ssm")
        N1, N2, N = lengths()
        d = dict(b=size("B"), n=N, m=size("M"), o=size("O"), **{"1": 1})
        if xd == 3:
            d["f"] = size("F")
        B, M = d["b"], d["m"]
        if xd == 3 and bf is None:
            d["f"] = M
        if cf is None and not oi:
            d["o"] = M
        ltistate.unambiguous(d, bf, cf, df, xd)
        x = arg("x", (B, N) + ((d["f"],) if xd == 3 else ()), areal)
        Bm, C, D = (ltistate.operand(n, f, d, areal) for n, f in (("B", bf), ("C", cf), ("D", df)))
        zi = ltistate.operand("zi", zk, d, areal)
        A, L, V, W = ltistate.eigen(M, B, batched, areal, vreal)
        o = pick_out(oi, M)
        U = size("U")
        m.find_eigenvectors = ltistate.hooks(A, L, V, W)
        m.linear_recurrence = ltistate.contract_lr_c
        m._ssm_C_D = ltistate.contract_CD(cf, df, d, oi)
        kw = dict(A=dict(A=A), LV=dict(L=L, V=V), LW=dict(L=L, Vinv=W), LVW=dict(L=L, V=V, Vinv=W))[given]
        call = lambda z, lo, hi: pair(m.diag_state_space(x[:, lo:hi], B=Bm, C=C, D=D, zi=z, out_idx=o, unroll_factor=U, **kw), "diag_state_space")
        r1 = call(zi, None, N1)
        r2 = call(r1[1], N1, None)
        s = lti_spec(A, x, Bm, bf, d, zi, zk, areal)
        MP, wt = T.P_(M), entry(W)

        def cand(c, i):
            q, k = cur().divmod(i[0], cur().n(MP))
            return Sum(ZERO, cur().n(MP), lambda j: wt(q, k, j) * app(s, (q, i[1], j)))

        rel2(("E", "Y"), cand, N1, "the diagonal recursion runs Vinv h over the whole signal")
        h = lambda b, t, i: app(s, (b, t - 1, i))
        vo = ltistate.vecout(cf, oi)
        fc = (lambda b, t, o_=None: h(b, t, T.P_(o))) if oi else ltistate.out_C(C, cf, h, M)
        fd = ltistate.out_D(D, df, x, d) if D is not None else None
        check2(r1, r2, N1, N2, (B,), (d["o"],) if vo else (), lambda i: toexpr(fc(*i)) + (fd(*i) if fd is not None else ZEROE),
               (B, M), lambda t, i: app(s, (i[0], t, i[1])))

    return run


DG = [(ext, given, bt, xd, bf, cf, df, zk, oi, ar, vr)
      for ext in (True, False) for given in ("A", "LV", "LW", "LVW") for bt in (0, 1) for xd in (2, 3) for bf in ltistate.B_FORMS[xd]
      for oi in (0, 1) for cf in ((None,) if oi else ltistate.C_FORMS) for df in (None,) + ltistate.D_FORMS[xd][ltistate.vecout(cf, oi)]
      for zk in ("m", "bm") for ar, vr in ((True, True), (True, False), (False, False)) if not (given == "A" and vr)]
DQ = cover_random(DG, 1, [lambda g: (g[0], g[1], g[2]), lambda g: (g[3], g[4], g[9], g[10]), lambda g: (g[5], g[8]), lambda g: (g[6], g[7])])
DA = (cover_random(DG, 2) | DQ) if THOROUGH else DQ
for g in DG:
    if g in DA:
        ext, given, bt, xd, bf, cf, df, zk, oi, ar, vr = g
        add("lti/ssm.diag_state_space %s given:%s%s x:%dd B:%s C:%s D:%s zi:%s%s %s" % ("ext" if ext else "no-ext", given, " batched" if bt else "", xd, bf, cf, df, zk,
            " out_idx" if oi else "", {(True, True): "real", (True, False): "real with complex eigenvalues", (False, False): "complex"}[ar, vr]),
            "lti/ssm.py:diag_state_space", ob_diag(*g), thorough=g not in DQ)


# ---------------------------------------------------------------- filters
def ob_lfilter(lpv, backend, form, bd, ad, xd, zk, rel):
    """bd, ad: 1 shared, 2 per batch."""
    def run():
        m = load.Loader().module("philtorch.%s.filtering" % ("lpv" if lpv else "lti"))
        B = size("B") if xd == 2 else 1
        N1, N2, N = lengths()
        Ma = size("Ma")
        if rel == ">":
            M = size("M")
            requires(Ma < M)
            K = M + 1
        else:
            M = Ma
            if rel == "=":
                K = Ma + 1
            else:
                K = size("K")
                requires(K < Ma + 1)
        tn = (N,) if lpv else ()
        b = arg("b", ((B,) if bd == 2 else ()) + tn + (K,))
        a = arg("a", ((B,) if ad == 2 else ()) + tn + (Ma,))
        x = arg("x", ((B,) if xd == 2 else ()) + (N,))
        zi = arg("zi", ((B,) if zk == "bm" else ()) + (M,))
        if lpv:
            m.state_space = lpvfilt.contract_state_space
            m.fir = lpvfilt.contract_fir
            m.allpole = lpvfilt.contract_allpole
            m.state_space_recursion = lpvssm.contract_rec("X")
            m._ext_ss_recur = lambda A, zi, x, *, unroll_factor=None, out_idx=None: lpvssm.contract_ext(A, zi, x, out_idx=out_idx)
            cut = lambda t, lo, hi: t[..., lo:hi, :]
            kw = dict(unroll_factor=size("U")) if backend == "ssm" else {}
        else:
            m.state_space = filt.contract_state_space
            m.diag_state_space = filt.contract_diag_state_space
            m.fir = filt.contract_fir
            m.state_space_recursion = ltissm.contract_rec("X")
            cut = lambda t, lo, hi: t
            kw = dict(unroll_factor=size("U"))

        def call(z, lo, hi):
            return pair(m.lfilter(cut(b, lo, hi), cut(a, lo, hi), x[..., lo:hi], z, form=form, backend=backend, **kw), "lfilter")

        r1 = call(zi, None, N1)
        r2 = call(r1[1], N1, None)
        BP, NP, MP = T.P_(B), T.P_(N), T.P_(M)
        fx0 = T.freeze(x)
        fx = fx0 if xd == 2 else (lambda i: fx0(i[1:]))
        if lpv:
            gb, ga = lpvfilt.tread(b, 2), lpvfilt.tread(a, 2)
            bk = lambda q, t, k: gb(q, t, k) if cur().ge0(cur().n(T.P_(K)) - 1 - k) else ZEROE
            ak = lambda q, t, k: ga(q, t, k) if cur().ge0(cur().n(T.P_(Ma)) - 1 - k) else ZEROE
            gz = lpvfilt.tread(zi, 1)
        else:
            b_, a_ = filt.coefs(b, a, bd, ad, K, Ma, M)
            bk, ak = (lambda q, t, k: b_(q, k)), (lambda q, t, k: a_(q, k))
            gz = filt.bread(zi)(1)
        if form == "df2":
            w = new_rec("W", (BP, NP), 1, None, None, True, window=MP)
            W = lambda q, t: app(w, (q, t))
            w.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: ak(i[0], i[1], k) * W(i[0], i[1] - 1 - k))
            w.init = lambda i: gz(i[0], -1 - i[1])
            rel2(("X", "V"), lambda c, i: W(i[0], i[1] - i[2]) if c.ndim == 3 else W(*i), N1, "one all-pole recursion over the whole signal")
            y = lambda i: Sum(ZERO, MP + 1, lambda k: bk(i[0], i[1], k) * W(i[0], i[1] - k))
            z = lambda t, i: W(i[0], t - i[1])
        else:
            s = new_rec("S", (BP, NP, MP), 1, None, None, True)
            y2 = lambda q, t: bk(q, t, ZERO) * fx((q, t)) + app(s, (q, t - 1, ZERO))

            def srule(i):
                q, t, k = i
                v = bk(q, t, k + 1) * fx((q, t)) - ak(q, t, k) * y2(q, t)
                return v + app(s, (q, t - 1, k + 1)) if cur().ge0(MP - 2 - k) else v

            s.rule = srule
            s.init = lambda i: gz(i[0], i[2])
            rel2(("X", "V"), lambda c, i: app(s, i), N1, "one delay line over the whole signal")
            y = lambda i: y2(*i)
            z = lambda t, i: app(s, (i[0], t, i[1]))
        if xd == 1 and bd == 1 and ad == 1 and zk != "bm":
            check2(r1, r2, N1, N2, (), (), lambda i: y((ZERO,) + tuple(i)), (M,), lambda t, i: z(t, (ZERO,) + tuple(i)), True, nb=0)
        else:
            check2(r1, r2, N1, N2, (B,), (), y, (B, M), z, True)

    return run


for lpv in (0, 1):
    p = "lpv" if lpv else "lti"
    for form in ("df2", "tdf2"):
        for backend in ("ssm", "torchlpc" if lpv else "diag_ssm"):
            if backend == "torchlpc" and form == "tdf2":
                continue
            for rel in "=<>":
                if backend == "diag_ssm" and rel == ">":
                    continue
                for xd in (2, 1):
                    for bd in (1, 2):
                        for ad in (1, 2):
                            for zk in ("m", "bm"):
                                if xd == 1 and (bd, ad) != (1, 1):
                                    continue
                                add("%s/filtering.lfilter %s %s order b%sa b:%d a:%d x:%dd zi:%s" % (p, backend, form, rel, bd, ad, xd, zk), p + "/filtering.py:lfilter",
                                    ob_lfilter(lpv, backend, form, bd, ad, xd, zk, rel))


def ob_fir(lpv, transpose):
    def run():
        m = load.Loader().module("philtorch.%s.filtering" % ("lpv" if lpv else "lti"))
        B, M = size("B"), size("M")
        N1, N2, N = lengths()
        if lpv:
            m.diag_shift = fir.contract_diag_shift
        b = arg("b", (B,) + ((N,) if lpv else ()) + (M + 1,))
        x = arg("x", (B, N))
        zi = arg("zi", (B, M))
        cut = (lambda lo, hi: b[:, lo:hi]) if lpv else (lambda lo, hi: b)
        call = lambda z, lo, hi: pair(m.fir(cut(lo, hi), x[:, lo:hi], z, transpose=transpose), "fir")
        r1 = call(zi, None, N1)
        r2 = call(r1[1], N1, None)
        fb = T.freeze(b)
        bc = (lambda q, n, k: fb((q, n, k))) if lpv else (lambda q, n, k: fb((q, k)))
        y, _ = fir.fir_value(bc, x, zi, transpose)(T.P_(M) + 1, T.P_(N))
        z = {}
        for n in (N1, N):
            z[n] = fir.fir_value(bc, x, zi, transpose)(T.P_(M) + 1, T.P_(n))[1]
        zs = [z[N1], z[N]]
        n1 = T.P_(N1)
        check2(r1, r2, N1, N2, (B,), (), lambda i: y(*i), (B, M), lambda t, i: (zs[0] if cur().eq0(t - n1 + 1) else zs[1])(*i), True)

    return run


def ob_allpole(transpose):
    def run():
        ops.install()
        m = load.Loader().module("philtorch.lpv.filtering")
        m.diag_shift = fir.contract_diag_shift
        B, M = size("B"), size("M")
        N1, N2, N = lengths()
        a, x, zi = arg("a", (B, N, M)), arg("x", (B, N)), arg("zi", (B, M))
        call = lambda z, lo, hi: pair(m.allpole(a[:, lo:hi], x[:, lo:hi], z, transpose=transpose), "allpole")
        r1 = call(zi, None, N1)
        r2 = call(r1[1], N1, None)
        fa, fx, fz = T.freeze(a), T.freeze(x), T.freeze(zi)
        MP, NP, n1 = T.P_(M), T.P_(N), T.P_(N1)
        s = new_rec("V", (T.P_(B), NP), 1, None, None, True, window=MP)
        if transpose:
            def body(i, lim):
                def f(k):
                    c = cur()
                    n = i[1] - 1 - k
                    if not c.ge0(n) or (lim is not None and not c.ge0(c.n(lim) - 1 - n)):
                        return ZEROE
                    return fa((i[0], n, k)) * app(s, (i[0], n))

                return f

            s.rule = lambda i: fx(i) + (fz(i) if cur().ge0(MP - 1 - i[1]) else ZEROE) - Sum(ZERO, MP, body(i, None))
            s.init = lambda i: ZEROE

            def z(t, i):
                n = t + 1 + i[1]
                v = fz((i[0], n)) if cur().ge0(MP - 1 - n) else ZEROE
                return v - Sum(ZERO, MP, body((i[0], n), t + 1))
        else:
            s.rule = lambda i: fx(i) - Sum(ZERO, MP, lambda k: fa((i[0], i[1], k)) * app(s, (i[0], i[1] - 1 - k)))
            s.init = lambda i: fz((i[0], -1 - i[1]))
            z = lambda t, i: app(s, (i[0], t - i[1]))
        rs = recs_named("E")
        h = len(rs) // 2
        for k, c in enumerate(rs):
            off = n1 if k >= h else ZERO
            end = NP if k >= h else n1

            def cand(i, off=off, end=end):
                if transpose and not cur().ge0(i[1]):
                    return ZEROE  # not read: the coefficients are zero there
                t = i[1] + off
                if transpose and not cur().ge0(cur().n(end) - 1 - t):
                    return toexpr(z(end - 1, (i[0], t - end)))  # behind the end: the memory
                return app(s, (i[0], t))

            relate(c, cand, "one recursion over the whole signal")
        check2(r1, r2, N1, N2, (B,), (), lambda i: app(s, i), (B, M), z, True)

    return run


def ob_comb(ak, zk, real):
    def run():
        m = load.Loader().module("philtorch.lti.filtering")
        m.linear_recurrence = contract_lti_lr()
        B, D, U = size("B"), size("D"), size("U")
        N1, N2, N = lengths()
        a = arg("a", {"0": (), "1": (1,), "B": (B,)}[ak], real)
        xs = arg("x1", (B, N1), real), arg("x2", (B, N2), real)
        for x in xs:
            x.sym.padpos = 1
        zi = arg("zi", (D,) if zk == "1d" else (B, D), real)
        n1, DP = T.P_(N1), T.P_(D)
        r1 = pair(m.comb_filter(a, D, xs[0], zi, unroll_factor=U), "comb_filter")
        y1 = recs_named("Y")
        s1 = comb.H_comb(a, D, xs[0], zi, "H1")
        r2 = pair(m.comb_filter(a, D, xs[1], r1[1], unroll_factor=U), "comb_filter")
        y2 = [c for c in recs_named("Y") if c not in y1]
        s2 = comb.H_comb(a, D, xs[1], r1[1], "H2")
        for cs, h in ((y1, s1), (y2, s2)):
            for c in cs:
                def cand(i, h=h):
                    q, d = cur().divmod(i[0], DP)
                    return app(h, (q, i[1] * DP + d))

                relate(c, cand, "rows of the folded signal")
        # the whole signal
        f1, f2 = (T.freeze(x) for x in xs)
        whole = T.Tensor((B, N), lambda i: f1(i) if cur().ge0(n1 - 1 - i[1]) else f2((i[0], i[1] - n1)), real)
        s = comb.H_comb(a, D, whole, zi)
        relate(s1, lambda i: app(s, i), "the first chunk")
        relate(s2, lambda i: app(s, (i[0], i[1] + n1)), "the second chunk")
        h = comb.hist_y(s, N)
        check2(r1, r2, N1, N2, (B,), (), lambda i: app(s, i), (B, D), lambda t, i: h(i[0], t - i[1]), real)

    return run


for tr in (False, True):
    t = "transposed" if tr else "direct"
    for lpv in (0, 1):
        p = "lpv" if lpv else "lti"
        add("%s/filtering.fir %s" % (p, t), p + "/filtering.py:fir", ob_fir(lpv, tr))
    add("lpv/filtering.allpole %s" % t, "lpv/filtering.py:allpole", ob_allpole(tr))
for real in (True, False):
    for ak in "01B":
        for zk in ("1d", "2d"):
            add("comb_filter a:%s zi:%s %s" % (ak, zk, "real" if real else "complex"), "lti/filtering.py:comb_filter", ob_comb(ak, zk, real))
