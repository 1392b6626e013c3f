"""C07-C10, C13-C20: filters and helpers"""
from common import *
import itertools


def coefs(g, K, M, lead_b, lead_a, c=False):
    b = rnd(g, *lead_b, K, cplx=c)
    if lead_a:
        a = np.stack([stable_poly(g, M, c) for _ in range(lead_a[0])])
    else:
        a = stable_poly(g, M, c)
    return b, a


# ------------------------------------------------------------------ C07


def gen_C07(r):
    i = 0
    while True:
        i += 1
        B = r.choice([1, 2, 3, 4])
        backend = r.choice(["ssm", "ssm", "diag_ssm"])
        M = r.choice([1, 2, 2, 3, 4])
        K = r.choice([1, 2, 3, 4, 5, M + 1, M + 2])
        form = r.choice(["df2", "tdf2"] if backend == "diag_ssm" else ["df2", "tdf2", "df1", "tdf1"])
        xs = r.choice(["N", "BN", "BN"])
        kw = {}
        if r.random() < 0.7:
            kw["unroll_factor"] = r.choice([1, 1, 2, 3, 4, 5])
        if backend == "diag_ssm" and K > M + 1 and r.random() < 0.5:
            kw["delayed_form"] = True
        yield dict(B=B, N=r.choice([1, 2, 3, 4, 5, 7, 9, 12, 16, B, M]), M=M, K=K, form=form, backend=backend, xs=xs,
                   bs=r.choice(["K", "BK"]), as_=r.choice(["M", "BM"]),
                   zi=r.choice([None, "L", "BL"]) if form in ("df2", "tdf2") else None, kw=kw, lay=r.choice("ccfs"), s=i)


def run_C07(case):
    g = rng_of(case)
    B, N, M, K = case["B"], case["N"], case["M"], case["K"]
    form, backend = case["form"], case["backend"]
    if case["xs"] == "N":
        if case["bs"] == "BK" or case["as_"] == "BM" or case["zi"] == "BL":
            B = 1  # one-dimensional signal: batch of one
    if case["zi"] and backend == "diag_ssm" and K > M + 1:
        return SKIP
    L = max(K - 1, M)
    if L == 0:
        return SKIP
    b, a = coefs(g, K, M, (B,) if case["bs"] == "BK" else (), (B,) if case["as_"] == "BM" else ())
    x = rnd(g, *((N,) if case["xs"] == "N" else (B, N)))
    X = np.atleast_2d(x)
    Bx = X.shape[0]
    zi = None if case["zi"] is None else rnd(g, *((L,) if case["zi"] == "L" else (Bx, L)))
    zf_ = None if zi is None else np.broadcast_to(zi, (Bx, L))
    bf, af = tv(b, Bx, N), tv(a, Bx, N)
    zr = None
    if form in ("df1", "tdf1"):
        y = ref_df1(bf, af, X)
    elif form == "df2":
        y, zr = ref_df2(bf, af, X, zf_)
    else:
        y, zr = ref_tdf2(bf, af, X, zf_)
    sq = x.ndim == 1 and b.ndim == 1 and a.ndim == 1 and (zi is None or zi.ndim == 1)
    if sq:
        y, zr = y[0], None if zr is None else zr[0]
    lay = case["lay"]
    args = [T(b, lay), T(a, lay), T(x, lay)]
    tz = None if zi is None else T(zi, lay)
    fr = Frame(*args, tz)
    out = call(lti.lfilter, *args, **dd(case, dict(zi=tz, form=form, backend=backend), zi=None, form="tdf2", backend="ssm"), **case["kw"])
    tol = 1e-5 if backend == "diag_ssm" else 1e-7
    check_filter(out, y, zr, zi is not None, tol)
    fr.check()


def check_filter(out, y, zr, has_zi, tol=1e-7, cplx=False):
    if has_zi:
        if not isinstance(out, tuple) or len(out) != 2:
            raise Bad("no final state returned")
        if not cplx and (out[0].is_complex() or out[1].is_complex()):
            raise Bad("complex result for a real filter")
        close(out[0], y, "output", tol)
        close(out[1], zr, "final state", tol)
    else:
        if isinstance(out, tuple):
            raise Bad("a final state was returned without initial state")
        if not cplx and out.is_complex():
            raise Bad("complex result for a real filter")
        close(out, y, "output", tol)


# ------------------------------------------------------------------ C08


def gen_C08(r):
    i = 0
    while True:
        i += 1
        backend = r.choice(["ssm", "ssm", "torchlpc"])
        M = r.choice([1, 2, 2, 3, 4])
        N = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 16])
        B = r.choice([1, 2, 3, min(N, 4), M])
        form = r.choice(["df2", "df1", "tdf1"] + (["tdf2"] if backend == "ssm" else []))
        kw = {}
        if backend == "ssm" and r.random() < 0.75:
            kw["unroll_factor"] = r.choice([1, 1, 2, 3, 4, 5, 6])
        yield dict(B=B, N=N, M=M, K=r.choice([1, 2, 3, 4, M + 1, M + 2]), form=form, backend=backend,
                   xs=r.choice(["N", "BN", "BN"]), bs=r.choice(["NK", "BNK"]), as_=r.choice(["NM", "BNM"]),
                   zi=r.choice([None, "L", "BL"]) if form in ("df2", "tdf2") else None, kw=kw, lay=r.choice("ccfs"), s=i)


def run_C08(case):
    g = rng_of(case)
    B, N, M, K = case["B"], case["N"], case["M"], case["K"]
    form = case["form"]
    if case["xs"] == "N" and ("B" in case["bs"] or "B" in case["as_"] or case["zi"] == "BL"):
        B = 1
    L = max(K - 1, M)
    b = rnd(g, *((B, N, K) if case["bs"] == "BNK" else (N, K)))
    a = rnd(g, *((B, N, M) if case["as_"] == "BNM" else (N, M)))
    a = a * (0.8 / M)
    x = rnd(g, *((N,) if case["xs"] == "N" else (B, N)))
    X = np.atleast_2d(x)
    Bx = X.shape[0]
    zi = None if case["zi"] is None else rnd(g, *((L,) if case["zi"] == "L" else (Bx, L)))
    z_ = None if zi is None else np.broadcast_to(zi, (Bx, L))
    bf, af = tvn(b, Bx, N), tvn(a, Bx, N)
    zr = None
    if form == "df1":
        y = ref_df1(bf, af, X)
    elif form == "tdf1":
        y = ref_tdf1(bf, af, X)
    elif form == "df2":
        y, zr = ref_df2(bf, af, X, z_)
    else:
        y, zr = ref_tdf2(bf, af, X, z_)
    if x.ndim == 1 and b.ndim == 2 and a.ndim == 2 and (zi is None or zi.ndim == 1):
        y, zr = y[0], None if zr is None else zr[0]
    lay = case["lay"]
    args = [T(b, lay), T(a, lay), T(x, lay)]
    tz = None if zi is None else T(zi, lay)
    fr = Frame(*args, tz)
    out = call(lpv.lfilter, *args, **dd(case, dict(zi=tz, form=form, backend=case["backend"]), zi=None, form="df2", backend="ssm"), **case["kw"])
    check_filter(out, y, zr, zi is not None)
    fr.check()


# ------------------------------------------------------------------ C09


def gen_C09(r):
    for f, B, N, M, z, t in itertools.product(("lti.fir", "lpv.fir", "lpv.allpole"), (1, 2), (1, 2, 3, 5), (0, 1, 2, 4), (0, 1), (0, 1)):
        if f == "lpv.allpole" and M == 0:
            continue
        yield dict(f=f, B=B, N=N, M=M, z=z, t=t, lay="c", s=0)
    i = 0
    while True:
        i += 1
        f = r.choice(("lti.fir", "lpv.fir", "lpv.allpole"))
        yield dict(f=f, B=r.randint(1, 4), N=r.choice([1, 2, 3, 4, 5, 8, 13, 20]), M=r.randint(0 if f != "lpv.allpole" else 1, 6),
                   z=r.randint(0, 1), t=r.randint(0, 1), lay=r.choice("cfs"), s=i)


def run_C09(case):
    g = rng_of(case)
    B, N, M, t = case["B"], case["N"], case["M"], bool(case["t"])
    x = rnd(g, B, N)
    zi = rnd(g, B, M) if case["z"] else None
    z0 = zi if zi is not None else np.zeros((B, M))
    lay = case["lay"]
    tx, tz = T(x, lay), None if zi is None else T(zi, lay)
    y = np.zeros((B, N))
    zf = np.zeros((B, M))
    if case["f"] != "lpv.allpole":
        c = rnd(g, B, M + 1) if case["f"] == "lti.fir" else rnd(g, B, N, M + 1)
        cf = tv(c, B, N) if c.ndim == 2 else c
        for i in range(B):
            w = z0[i].copy()
            for n in range(N):
                if t:
                    s = np.append(w, 0) + cf[i, n] * x[i, n]
                    y[i, n], w = s[0], s[1:]
                else:
                    s = np.append([x[i, n]], w)
                    y[i, n], w = cf[i, n] @ s, s[:-1]
            zf[i] = w
        fn = lti.fir if case["f"] == "lti.fir" else lpv.fir
    else:
        c = rnd(g, B, N, M) * (0.8 / M)
        for i in range(B):
            w = z0[i].copy()
            for n in range(N):
                if t:
                    y[i, n] = x[i, n] + w[0]
                    w = np.append(w[1:], 0) - c[i, n] * y[i, n]
                else:
                    y[i, n] = x[i, n] - c[i, n] @ w
                    w = np.append([y[i, n]], w[:-1])
            zf[i] = w
        fn = lpv.allpole
    tc = T(c, lay)
    fr = Frame(tc, tx, tz)
    out = call(fn, tc, tx, **dd(case, dict(zi=tz, transpose=bool(t)), zi=None, transpose=fn is lti.fir))
    if zi is not None:
        if len(out) != 2:
            raise Bad("no final state")
        close(out[0], y, "output")
        close(out[1], zf, "final state")
    else:
        close(out, y, "output")
    fr.check()


# ------------------------------------------------------------------ C10 streaming


def gen_C10(r):
    i = 0
    while True:
        i += 1
        N = r.choice([2, 3, 4, 5, 6, 8, 11, 15])
        cuts = sorted(r.sample(range(1, N), r.randint(1, min(N - 1, 4))))
        M = r.choice([1, 2, 3, 4])
        sysk = r.choice(["lti.ss", "lti.diag", "lpv.ss", "lti.df2", "lti.tdf2", "lti.diag.df2", "lti.diag.tdf2", "lpv.df2", "lpv.tdf2",
                         "lpv.torchlpc.df2", "lti.fir", "lti.fir.t", "lpv.fir", "lpv.fir.t", "lpv.allpole", "lpv.allpole.t", "comb"])
        yield dict(sys=sysk, B=r.choice([1, 2, 3, min(N, 3)]), N=N, M=M, K=r.choice([1, 2, 3, M + 1]), cuts=cuts,
                   u=r.choice([None, 1, 2, 3]), sh=r.randint(0, 1), o=r.choice([None, 0]), s=i)


def run_C10(case):
    g = rng_of(case)
    B, N, M, K, k = case["B"], case["N"], case["M"], case["K"], case["sys"]
    u, sh = case["u"], case["sh"]
    x = T(rnd(g, B, N))
    kw = {} if u is None else {"unroll_factor": u}
    lead = () if sh else (B,)
    tol = 1e-7
    if k in ("lti.ss", "lti.diag"):
        if k == "lti.diag":
            A = T(np.stack([comp(stable_poly(g, M)) for _ in range(B)]) if lead else comp(stable_poly(g, M)))
            tol = 1e-5
        else:
            A = T(stable_mats(g, lead, M))
        Bm, C, D = T(rnd(g, M)), (T(rnd(g, M)) if case["o"] is None else None), T(rnd(g))
        zi = T(rnd(g, B, M))
        f = (lambda xx, z, s, e: lti.state_space(A, xx, B=Bm, C=C, D=D, zi=z, out_idx=case["o"], **kw)) if k == "lti.ss" else (
            lambda xx, z, s, e: real2(lti.diag_state_space(xx, A=A, B=Bm, C=C, D=D, zi=z, out_idx=case["o"], **kw)))
    elif k == "lpv.ss":
        A = T(stable_mats(g, lead + (N,), M))
        Bm, C, D = T(rnd(g, B, N, M)), (T(rnd(g, B, N, M)) if case["o"] is None else None), T(rnd(g))
        zi = T(rnd(g, B, M))
        f = lambda xx, z, s, e: lpv.state_space(A[..., s:e, :, :], xx, B=Bm[:, s:e], C=None if C is None else C[:, s:e], D=D, zi=z, out_idx=case["o"], **kw)
    elif k.startswith("lti") and "df2" in k:
        diag = "diag" in k
        if diag and K > M + 1:
            return SKIP
        b, a = coefs(g, K, M, lead, lead)
        b, a = T(b), T(a)
        zi = T(rnd(g, B, max(K - 1, M)))
        tol = 1e-5 if diag else tol
        f = lambda xx, z, s, e: lti.lfilter(b, a, xx, zi=z, form=k.split(".")[-1], backend="diag_ssm" if diag else "ssm", **kw)
    elif k.startswith("lpv") and "df2" in k:
        lpc = "torchlpc" in k
        b, a = T(rnd(g, *lead, N, K)), T(rnd(g, *lead, N, M) * 0.8 / M)
        zi = T(rnd(g, B, max(K - 1, M)))
        f = lambda xx, z, s, e: lpv.lfilter(b[..., s:e, :], a[..., s:e, :], xx, zi=z, form=k.split(".")[-1],
                                            backend="torchlpc" if lpc else "ssm", **({} if lpc else kw))
    elif k.startswith("lti.fir"):
        b = T(rnd(g, B, K))
        zi = T(rnd(g, B, K - 1))
        f = lambda xx, z, s, e: lti.fir(b, xx, zi=z, transpose=k.endswith("t"))
    elif k.startswith("lpv.fir"):
        b = T(rnd(g, B, N, K))
        zi = T(rnd(g, B, K - 1))
        f = lambda xx, z, s, e: lpv.fir(b[:, s:e], xx, zi=z, transpose=k.endswith("t"))
    elif k.startswith("lpv.allpole"):
        a = T(rnd(g, B, N, M) * 0.8 / M)
        zi = T(rnd(g, B, M))
        f = lambda xx, z, s, e: lpv.allpole(a[:, s:e], xx, zi=z, transpose=k.endswith("t"))
    else:
        d = M
        a = T(rnd(g, *((), (B,))[not sh]) * 0.6)
        zi = T(rnd(g, B, d))
        f = lambda xx, z, s, e: lti.comb_filter(a, d, xx, zi=z, **kw)
    y, zf = call(f, x, zi, 0, N)
    ys, z, s = [], zi, 0
    for e in case["cuts"] + [N]:
        yy, z = call(f, x[:, s:e], z, s, e)
        ys.append(yy)
        s = e
    close(torch.cat(ys, 1), npy(y), "chunked output", tol)
    close(z, npy(zf), "chunked final state", tol)


def real2(out):
    return tuple(t.real if t.is_complex() else t for t in out)


def comp(a):
    M = len(a)
    A = np.zeros((M, M))
    A[0] = -a
    for i in range(1, M):
        A[i, i - 1] = 1
    return A


# ------------------------------------------------------------------ C13


def gen_C13(r):
    i = 0
    while True:
        i += 1
        M = r.randint(1, 5)
        yield dict(f=r.choice(["zi_t", "zi_d", "ic"]), K=r.choice([1, 2, 3, 4, M + 1, M + 2]), M=M,
                   bb=r.choice([0, 0, 1, 2]), ab=r.choice([0, 0, 1]), nb=r.randint(0, 1), lay=r.choice("cfs"), s=i)


def run_C13(case):
    g = rng_of(case)
    K, M, B = case["K"], case["M"], 3
    lead_b, lead_a = (B,) if case["bb"] else (), (B,) if case["ab"] else ()
    lay = case["lay"]
    if case["f"] == "zi_t" and lead_a and not lead_b:
        pass
    b, a = coefs(g, K, M, lead_b, lead_a)
    Bq = B if (lead_b or lead_a) else 1
    bf, af = np.broadcast_to(b, (Bq, K)), np.broadcast_to(a, (Bq, M))
    tb, ta = T(b, lay), T(a, lay)
    fr = Frame(tb, ta)
    if case["f"] == "zi_t":
        if max(K - 1, M) == 0:
            return SKIP
        zi = call(lti.lfilter_zi, ta, tb, **dd(case, dict(transpose=True), transpose=True))
        L = max(K - 1, M)
        z = npy(zi)
        if z.shape != ((Bq, L) if (lead_a or lead_b) else (L,)):
            raise Bad(f"zi shape {z.shape}")
        z = np.broadcast_to(z, (Bq, L))
        x = np.ones((Bq, 6))
        y, zf = ref_tdf2(tv(bf, Bq, 6), tv(af, Bq, 6), x, z)
        dc = bf.sum(-1) / (1 + af.sum(-1))
        close(y, np.repeat(dc[:, None], 6, 1), "step response from the steady state", 1e-6)
        close(zf, z, "fixed point", 1e-6)
    elif case["f"] == "zi_d":
        if lead_b:
            return SKIP
        useb = bool(case["nb"])
        zi = call(lti.lfilter_zi, ta, *([tb] if useb else []), transpose=False)
        L = max(K - 1, M) if useb else M
        z = npy(zi)
        if z.shape != ((Bq, L) if lead_a else (L,)):
            raise Bad(f"zi shape {z.shape}")
        z = np.broadcast_to(z, (Bq, L))
        bq = np.pad(bf, ((0, 0), (0, max(0, L + 1 - K)))) if useb else np.broadcast_to(np.eye(1, L + 1), (Bq, L + 1))
        y, zf = ref_df2(tv(bq, Bq, 6), tv(af, Bq, 6), np.ones((Bq, 6)), z)
        close(zf, z, "delay line at rest under a unit input", 1e-6)
        dc = bq.sum(-1) / (1 + af.sum(-1))
        close(y, np.repeat(dc[:, None], 6, 1), "step response from the steady state", 1e-6)
    else:
        if bool(lead_a) != bool(lead_b) and case["nb"]:
            return SKIP
        L = max(K - 1, M)
        yh = rnd(g, *(((Bq,) if lead_a or lead_b else ()) + (M,)))
        xh = rnd(g, *(((Bq,) if lead_a or lead_b else ()) + (K - 1,))) if case["nb"] else None
        ty, tx = T(yh, lay), None if xh is None else T(xh, lay)
        fr2 = Frame(ty, tx)
        zi = call(lti.lfiltic, tb, ta, ty, tx)
        YH = np.broadcast_to(yh, (Bq, M))
        XH = np.zeros((Bq, K - 1)) if xh is None else np.broadcast_to(xh, (Bq, K - 1))
        ref = np.zeros((Bq, L))
        for q in range(Bq):
            for i in range(L):
                ref[q, i] = sum(bf[q, i + 1 + j] * XH[q, j] for j in range(K - 1) if i + 1 + j < K) - sum(
                    af[q, i + j] * YH[q, j] for j in range(M) if i + j < M)
        close(zi, ref if (lead_a or lead_b) else ref[0], "history-derived state")
        fr2.check()
    fr.check()


# ------------------------------------------------------------------ C14


def gen_C14(r):
    i = 0
    while True:
        i += 1
        M = r.randint(1, 3)
        yield dict(B=r.randint(1, 3), N=r.choice([6, 12, 16, 20, 25]), M=M, K=r.choice([1, 2, 3, 4, M + 1]), xs=r.choice(["N", "BN", "BN"]),
                   bb=r.choice([0, 0, 1]), ab=r.choice([0, 0, 1]), form=r.choice(["df2", "tdf2", "df1", "tdf1"]),
                   pm=r.choice(["replicate", "replicate", "reflect", None]), pl=r.choice([None, 0, 1, 3, 5]), u=r.choice([None, 1, 3]),
                   lay=r.choice("cfs"), s=i)


def run_C14(case):
    g = rng_of(case)
    B, N, M, K, form = case["B"], case["N"], case["M"], case["K"], case["form"]
    if case["xs"] == "N" and (case["bb"] or case["ab"]):
        return SKIP
    b, a = coefs(g, K, M, (B,) if case["bb"] else (), (B,) if case["ab"] else ())
    if case["xs"] == "N":
        B = 1
    x = rnd(g, B, N) + 0.5
    edge = case["pl"] if case["pl"] is not None else 3 * max(K, M + 1)
    if case["pm"] is None:
        edge = 0
    if edge >= N:
        return SKIP
    if edge:
        ext = np.pad(x, ((0, 0), (edge, edge)), mode={"replicate": "edge", "reflect": "reflect"}[case["pm"]])
    else:
        ext = x
    L = max(K - 1, M)

    def step(s):
        n = s.shape[1]
        bf, af = tv(np.broadcast_to(b, (B, K)), B, n), tv(np.broadcast_to(a, (B, M)), B, n)
        zi = np.zeros((B, L))
        for q in range(B):
            bb = np.zeros(L + 1); bb[:K] = bf[q, 0]
            aa = np.zeros(L); aa[:M] = af[q, 0]
            g0 = bb.sum() / (1 + aa.sum())
            acc = 0.0
            for j in range(L - 1, -1, -1):
                acc = acc + bb[j + 1] - aa[j] * g0
                zi[q, j] = acc
        return ref_tdf2(bf, af, s, zi * s[:, :1])[0]

    y = step(step(ext)[:, ::-1])[:, ::-1]
    if edge:
        y = y[:, edge:-edge]
    if case["xs"] == "N":
        x, y = x[0], y[0]
    lay = case["lay"]
    tb, ta, tx = T(b, lay), T(a, lay), T(x, lay)
    fr = Frame(tb, ta, tx)
    kw = {} if case["u"] is None else {"unroll_factor": case["u"]}
    out = call(lti.filtfilt, tb, ta, tx, **dd(case, dict(padmode=case["pm"], padlen=case["pl"], form=form), padmode="replicate", padlen=None, form="tdf2"), **kw)
    close(out, y, "zero-phase output", 1e-6)
    fr.check()


# ------------------------------------------------------------------ C15


def gen_C15(r):
    for n in list(range(-13, 50)) + [60, 64, 72, 81, 97, 100]:
        yield dict(f="pow", n=n, M=2, lead=[], c=0, lay="c", s=0)
        if n > 0:
            yield dict(f="dot", n=n, M=2, lead=[], c=0, lay="c", s=0)
    i = 0
    while True:
        i += 1
        f = r.choice(["pow", "dot", "comp", "vander", "eig"])
        yield dict(f=f, n=r.randint(-8, 60) if f == "pow" else r.randint(1, 60), M=r.randint(1, 4),
                   lead=r.choice([[], [2], [3], [2, 3]]), c=r.randint(0, 1), lay=r.choice("cfs"), s=i)


def run_C15(case):
    g = rng_of(case)
    f, n, M, lead, c = case["f"], case["n"], case["M"], tuple(case["lead"]), bool(case["c"])
    if f in ("pow", "dot"):
        A = rnd(g, *lead, *(() if f == "pow" else (n,)), M, M, cplx=c) * 0.5 + 0.6 * np.eye(M)
        if f == "pow" and n < 0:
            A = A * 0.3 + np.eye(M)
        t = T(A, case["lay"])
        fr = Frame(t)
        out = call(mat.matrix_power_accumulate, t, n) if f == "pow" else call(mat.matrices_cumdot, t)
        if f == "pow":
            base = np.linalg.inv(A) if n < 0 else A
            ref = [np.broadcast_to(np.eye(M), A.shape)] if n == 0 else []
            cur = None
            for _ in range(abs(n)):
                cur = base if cur is None else cur @ base
                ref.append(cur)
        else:
            ref = [A[..., 0, :, :]]
            for k in range(1, n):
                ref.append(ref[-1] @ A[..., k, :, :])
        ref = np.stack(ref, -3)
        got = npy(out)
        if got.shape != ref.shape:
            raise Bad(f"shape {got.shape}, expected {ref.shape}")
        for k in range(ref.shape[-3]):
            close(got[..., k, :, :], ref[..., k, :, :], f"product {k}", 1e-7 if n >= 0 else 1e-5)
        fr.check()
    elif f == "comp":
        a = rnd(g, *lead, M, cplx=c)
        t = T(a, case["lay"])
        fr = Frame(t)
        out = call(mat.companion, t)
        ref = np.zeros(lead + (M, M), dtype=a.dtype)
        ref[..., 0, :] = -a
        for i in range(1, M):
            ref[..., i, i - 1] = 1
        close(out, ref, "companion")
        fr.check()
    elif f == "vander":
        if len(lead) > 1:
            return SKIP
        if lead and not hasattr(torch, "vander"):
            return SKIP
        p = rnd(g, M, cplx=c)
        if lead:
            return SKIP
        t = T(p, case["lay"])
        fr = Frame(t)
        out = npy(call(mat.vandermonde, t))
        # columns are eigenvectors of the companion matrix of prod (z - p)
        A = np.zeros((M, M), dtype=np.result_type(p, float))
        A[0] = -np.poly(p)[1:]
        for i in range(1, M):
            A[i, i - 1] = 1
        if out.shape != (M, M):
            raise Bad(f"shape {out.shape}")
        close(A @ out, out * p[None, :], "A V = V diag(p)", 1e-6)
        if np.any(np.abs(out[-1] - 1) > 1e-9):
            raise Bad("last row is not one")
        fr.check()
    else:
        L = (0.3 + 0.5 * g.random(lead + (M,))) * np.exp(2j * np.pi * (np.arange(M) + 0.5 * g.random(lead + (M,))) / M)
        V = np.eye(M) + 0.3 * rnd(g, *lead, M, M, cplx=True)
        if np.linalg.cond(V).max() > 30:
            return SKIP
        A = (V * L[..., None, :]) @ np.linalg.inv(V)
        tA, tL = T(A, case["lay"]), T(L, case["lay"])
        fr = Frame(tA, tL)
        out = npy(call(mat.find_eigenvectors, tA, tL))
        if np.abs(out[..., 0, :]).min() < 1e-3:
            return SKIP
        close(A @ out, out * L[..., None, :], "A V = V diag(L)", 1e-5)
        close(np.linalg.norm(out, axis=-2), np.ones(lead + (M,)), "unit norm", 1e-6)
        fr.check()


# ------------------------------------------------------------------ C16


def gen_C16(r):
    for m, n in itertools.product(range(0, 6), range(0, 6)):
        yield dict(m=m, n=n, lu=[], lv=[], c=0, lay="c", s=0)
    i = 0
    while True:
        i += 1
        yield dict(m=r.randint(0, 9), n=r.randint(0, 6), lu=r.choice([[], [2], [3, 2], [1]]), lv=r.choice([[], [2], [3, 1], [1]]), c=r.randint(0, 1), lay=r.choice("cfs"), s=i)


def run_C16(case):
    g = rng_of(case)
    m, n, c = case["m"], case["n"], bool(case["c"])
    lu, lv = tuple(case["lu"]), tuple(case["lv"])
    lead = np.broadcast_shapes(lu, lv)
    u, v = rnd(g, *lu, m + 1, cplx=c), rnd(g, *lv, n + 1, cplx=c)
    v[..., 0] = 1.0 + 0.5 * np.abs(v[..., 0])
    tu, tvv = T(u, case["lay"]), T(v, case["lay"])
    fr = Frame(tu, tvv)
    out = call(poly.polydiv, tu, tvv)
    q, rem = npy(out[0]), npy(out[1])
    if m < n:
        if q.shape[-1] != 0:
            raise Bad(f"quotient of a short dividend has length {q.shape[-1]}")
        close(rem, np.broadcast_to(u, lead + (m + 1,)), "remainder")
    else:
        if q.shape != lead + (m - n + 1,) or rem.shape != lead + (n,):
            raise Bad(f"shapes {q.shape} {rem.shape}")
        U, V = np.broadcast_to(u, lead + (m + 1,)), np.broadcast_to(v, lead + (n + 1,))
        got = np.zeros(U.shape, dtype=np.result_type(q, V))
        for i in range(m - n + 1):
            got[..., i:i + n + 1] += q[..., i:i + 1] * V
        if n:
            got[..., m + 1 - n:] += rem
        close(got, U, "q v + r", 1e-5)
    fr.check()


# ------------------------------------------------------------------ C17


def gen_C17(r):
    i = 0
    while True:
        i += 1
        m = r.choice([1, 2, 3, 4, 5, 7]) if i % 5 else r.choice([8, 10, 16, 25, 48, 49, 50, 98, 103])
        yield dict(f=r.choice(["coef", "up", "up"]), B=r.randint(1, 3), L=r.choice([3, 4, 5, 8] + [20, 40, 60] * (m < 8)), m=m, par=r.randint(0, 1), sp=r.randint(0, 1),
                   u=r.choice([None, 1, 3, 7]), lay=r.choice("cfs"), s=i)


def bspline(t):
    t = abs(t)
    return (4 - 6 * t * t + 3 * t ** 3) / 6 if t <= 1 else ((2 - t) ** 3 / 6 if t < 2 else 0.0)


def run_C17(case):
    g = rng_of(case)
    B, L, m = case["B"], case["L"], case["m"]
    x = rnd(g, B, L)
    tx = T(x, case["lay"])
    fr = Frame(tx)
    kw = {} if case["u"] is None else {"unroll_factor": case["u"]}
    cs = philtorch.lti.interp.cspline
    c = npy(call(cs, tx, **dd(case, dict(parallel_form=bool(case["par"]), scipy_padding=bool(case["sp"])), parallel_form=True, scipy_padding=False), **kw))
    if c.shape != x.shape:
        raise Bad(f"coefficient shape {c.shape}")
    z = abs(3 ** 0.5 - 2)
    close(c[:, :-2] + 4 * c[:, 1:-1] + c[:, 2:], 6 * x[:, 1:-1], "c[n-1]+4c[n]+c[n+1] = 6x[n]", 1e-6)
    c2 = npy(call(cs, tx, parallel_form=not case["par"], scipy_padding=bool(case["sp"]), **kw))
    d = np.abs(c - c2)
    bound = 60 * np.abs(x).max() * (z ** (L - 1)) + 1e-8
    if d.max() > bound:
        raise Bad(f"parallel and cascaded forms differ by {d.max():.3g} > {bound:.3g}")
    if case["f"] == "up":
        out = npy(call(lti.cubic_spline, tx, m, **dd(case, dict(scipy_padding=bool(case["sp"]), parallel_form=bool(case["par"])), parallel_form=True, scipy_padding=False), **kw))
        if out.shape != (B, (L - 1) * m + 1):
            raise Bad(f"length {out.shape}, expected {(B, (L - 1) * m + 1)}")
        if m > 1:
            ext = {-1: c[:, 0] if case["sp"] else c[:, 1], L: c[:, -1] if case["sp"] else c[:, L - 2], L + 1: c[:, -2] if case["sp"] else c[:, L - 3]}
            get = lambda i: c[:, i] if 0 <= i < L else ext[i]
            ref = np.zeros_like(out)
            for k in range(out.shape[1]):
                i, f = divmod(k, m)
                ref[:, k] = sum(get(i + j) * bspline(f / m - j) for j in (-1, 0, 1, 2) if i + j <= L + 1)
            close(out, ref, "cubic B-spline of the coefficients", 1e-6)
        bound = 60 * np.abs(x).max() * (z ** (L - 1)) + 1e-7
        e = np.abs(out[:, ::m] - x).max()
        if e > bound:
            raise Bad(f"samples not reproduced: {e:.3g} > {bound:.3g}")
    fr.check()


# ------------------------------------------------------------------ C18


def gen_C18(r):
    for B, N, d, z, sh in itertools.product((1, 2), (1, 2, 3, 4, 5, 6), (1, 2, 3, 4), (None, "d", "Bd"), ("s", "1", "B")):
        yield dict(B=B, N=N, d=d, z=z, a=sh, u=None, lay="c", s=0)
    i = 0
    while True:
        i += 1
        yield dict(B=r.randint(1, 4), N=r.randint(1, 25), d=r.randint(1, 9), z=r.choice([None, "d", "Bd"]), a=r.choice(["s", "1", "B"]), u=r.choice([None, 1, 2, 3, 5]),
                   lay=r.choice("cfs"), s=i)


def run_C18(case):
    g = rng_of(case)
    B, N, d = case["B"], case["N"], case["d"]
    a = rnd(g, *{"s": (), "1": (1,), "B": (B,)}[case["a"]]) * 0.6
    A = np.broadcast_to(np.reshape(a, (-1,)), (B,))
    x = rnd(g, B, N)
    zi = None if case["z"] is None else rnd(g, *((d,) if case["z"] == "d" else (B, d)))
    Z = np.zeros((B, d)) if zi is None else np.broadcast_to(zi, (B, d))
    h = np.concatenate([Z[:, ::-1], np.zeros((B, N))], 1)
    for n in range(N):
        h[:, d + n] = x[:, n] - A * h[:, n]
    ta, tx, tz = T(a, case["lay"]), T(x, case["lay"]), None if zi is None else T(zi, case["lay"])
    fr = Frame(ta, tx, tz)
    kw = {} if case["u"] is None else {"unroll_factor": case["u"]}
    out = call(lti.comb_filter, ta, d, tx, zi=tz, **kw)
    if zi is None:
        if isinstance(out, tuple):
            raise Bad("final state without initial state")
        close(out, h[:, d:], "output")
    else:
        close(out[0], h[:, d:], "output")
        close(out[1], h[:, -d:][:, ::-1], "last outputs")
    fr.check()


# ------------------------------------------------------------------ C19, C20 reuse every other generator


def _mods():
    import props_a
    return {"C01": props_a, "C02": props_a, "C03": props_a, "C05": props_a, "C06": props_a, **{k: sys.modules[__name__] for k in
            ("C07", "C08", "C09", "C13", "C14", "C15", "C16", "C17", "C18")}}


def gen_mix(r, pids):
    mods = _mods()
    gens = {p: getattr(mods[p], "gen_" + p)(random.Random(r.random())) for p in pids}
    skipn = {"C01": 200, "C02": 200, "C03": 400, "C09": 90, "C15": 100, "C16": 30, "C18": 100}
    for p, g in gens.items():
        for _ in range(skipn.get(p, 0)):
            next(g)
    while True:
        for p in pids:
            yield dict(p=p, case=next(gens[p]))


def run_mix(case):
    return getattr(_mods()[case["p"]], "run_" + case["p"])(case["case"])


def gen_C19(r): return gen_mix(r, ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C14", "C17", "C18"])
def run_C19(case): return run_mix(case)


def gen_C20(r):
    def alt():
        g = gen_mix(r, list(_mods()))
        import props_c
        gc = {p: getattr(props_c, "gen_" + p)(random.Random(r.random())) for p in ("C22", "C23")}
        i = 0
        while True:
            yield next(g)
            i += 1
            p = "C23" if i % 4 else "C22"
            yield dict(p=p, case=next(gc[p]))
            yield dict(p="bw", f=r.choice(["lti.rec", "lpv.rec", "lti.ss", "lpv.ss", "lti.lf", "lpv.lf", "comb", "filtfilt", "spline", "fir", "allpole"]),
                       B=r.randint(1, 3), N=r.randint(3, 9), M=r.randint(1, 3), u=r.choice([1, 2, 3]), v=r.choice(["own", "view", "expand"]), s=i)
    return alt()


def run_C20(case):
    """frame: only argument changes count here"""
    if case["p"] == "bw":
        return run_bw(case)
    try:
        if case["p"] in ("C22", "C23"):
            import props_c
            return getattr(props_c, "run_" + case["p"])(case["case"])
        return run_mix(case)
    except Bad as e:
        if "was modified by the call" in str(e):
            raise
        return SKIP


def run_bw(case):
    g = rng_of(case)
    B, N, M, u, f = case["B"], case["N"], case["M"], case["u"], case["f"]
    bases = []

    def leaf(*shape, scale=1.0):
        v = torch.from_numpy(rnd(g, *shape) * scale)
        if case["v"] == "view":
            base = torch.cat([v.flatten(), v.flatten()])
            bases.append((base, base.clone()))
            v = base[: v.numel()].view(shape)
        elif case["v"] == "expand" and len(shape) > 1:
            v = v[:1].contiguous().expand(*shape)
        bases.append((v, v.clone()))
        return v.detach().requires_grad_(True) if case["v"] != "expand" else v.requires_grad_(True) if v.is_leaf else v

    x = leaf(B, N)
    if f == "lti.rec":
        y = lti.linear_recurrence(leaf(B, scale=.5), leaf(B), x, unroll_factor=u)
    elif f == "lpv.rec":
        y = lpv.linear_recurrence(leaf(B, N, scale=.5), leaf(B), x, unroll_factor=u)
    elif f == "lti.ss":
        y = lti.state_space(leaf(M, M, scale=.4), x, B=leaf(B, M), zi=leaf(B, M), unroll_factor=u)[0]
    elif f == "lpv.ss":
        y = lpv.state_space(leaf(N, M, M, scale=.4), x, B=leaf(M), zi=leaf(B, M), unroll_factor=u)[0]
    elif f == "lti.lf":
        y = lti.lfilter(leaf(B, M + 1), leaf(B, M, scale=.2), x, zi=leaf(B, M), form=["df2", "tdf2"][u % 2], unroll_factor=u)[0]
    elif f == "lpv.lf":
        y = lpv.lfilter(leaf(B, N, M + 1), leaf(B, N, M, scale=.2), x, zi=leaf(B, M), form=["df2", "tdf2"][u % 2], unroll_factor=u)[0]
    elif f == "comb":
        y = lti.comb_filter(leaf(B, scale=.5), u, x, zi=leaf(B, u))[0]
    elif f == "filtfilt":
        y = lti.filtfilt(leaf(M + 1), leaf(M, scale=.2), x, padlen=1, form=["df2", "tdf2", "df1", "tdf1"][case["s"] % 4])
    elif f == "spline":
        y = lti.cubic_spline(x, u)
    elif f == "fir":
        y = lpv.fir(leaf(B, N, M + 1), x, zi=leaf(B, M), transpose=bool(u % 2))[0] + lti.fir(leaf(B, M + 1), x, zi=leaf(B, M), transpose=bool(u % 2))[0]
    else:
        y = lpv.allpole(leaf(B, N, M, scale=.2), x, zi=leaf(B, M), transpose=bool(u % 2))[0]
    gy = torch.randn(y.shape, dtype=y.dtype)
    bases.append((gy, gy.clone()))
    if y.requires_grad:
        y.backward(gy)
    for t, c in bases:
        if not torch.equal(t.detach(), c):
            raise Bad(f"a tensor of shape {tuple(t.shape)} was modified by {f} (forward or backward)")
