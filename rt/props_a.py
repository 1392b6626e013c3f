"""C01-C06: recurrences, kernels, state space"""
from common import *
import itertools


def pick(r, *xs):
    return r.choice(xs)


# ------------------------------------------------------------------ C01 / C02


def gen_mat(r, tv_):
    # small exhaustive part first, random afterwards
    for B, N, M, sh, xd, u in itertools.product((1, 2), (1, 2, 3, 4, 5, 7), (1, 2), (0, 1), (2, 3), (1, 2, 3, 4)):
        if u <= N:
            yield dict(B=B, N=N, M=M, shared=sh, xd=xd, u=u, o=None, c=0, lay="c", s=0)
    i = 0
    while True:
        i += 1
        N = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 24, 25, 27, 30, 33])
        M = r.choice([1, 2, 2, 3, 4])
        yield dict(B=r.choice([1, 2, 3, M, min(N, 4)]), N=N, M=M, shared=r.randint(0, 1), xd=r.choice([2, 3]),
                   u=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, N, N + 1, max(1, N - 1), max(1, N // 2)]),
                   o=r.choice([None, 0, M - 1, -1]), c=r.randint(0, 1), lay=r.choice("cfs"), s=i)


def run_mat(case, tv_):
    g = rng_of(case)
    B, N, M, c = case["B"], case["N"], case["M"], bool(case["c"])
    lead = (() if case["shared"] else (B,)) + ((N,) if tv_ else ())
    A = stable_mats(g, lead, M, c)
    zi = rnd(g, B, M, cplx=c)
    x = rnd(g, B, N, cplx=c) if case["xd"] == 2 else rnd(g, B, N, M, cplx=c)
    if x.ndim == 2:
        u = np.zeros((B, N, M), dtype=x.dtype)
        u[..., 0] = x
    else:
        u = x
    Af = A if not case["shared"] else A[None]
    Af = Af if tv_ else Af[:, None]
    ref = ref_states(np.broadcast_to(Af, (B, N, M, M)), zi, u)
    if case["o"] is not None:
        ref = ref[..., case["o"]]
    lay = case["lay"]
    args = [T(A, lay), T(zi, lay), T(x, lay)]
    fr = Frame(*args)
    f = (lpv if tv_ else lti).state_space_recursion
    y = call(f, *args, **dd(case, dict(unroll_factor=case["u"], out_idx=case["o"]), unroll_factor=1, out_idx=None))
    close(y, ref, "states")
    fr.check()


def gen_C01(r): return gen_mat(r, False)
def run_C01(c): return run_mat(c, False)
def gen_C02(r): return gen_mat(r, True)
def run_C02(c): return run_mat(c, True)


# ------------------------------------------------------------------ C03


def gen_C03(r):
    for v, B, N, ash, ish, u in itertools.product((0, 1), (1, 2, 3), (1, 2, 3, 4, 5, 6), ("s", "1", "B"), ("s", "1", "B"), (1, 2, 3, 4)):
        if u <= N + 1 and not (v and ash == "1"):
            yield dict(v=v, B=B, N=N, a=ash, i=ish, u=u, c=0, lay="c", s=0)
    i = 0
    while True:
        i += 1
        N = r.randint(1, 40)
        yield dict(v=r.randint(0, 1), B=r.randint(1, 4), N=N, a=r.choice(["s", "1", "B"]), i=r.choice(["s", "1", "B"]),
                   u=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, N, N + 1, max(1, N - 1)]), c=r.randint(0, 1), lay=r.choice("cfs"), s=i)


def run_C03(case):
    g = rng_of(case)
    B, N, c = case["B"], case["N"], bool(case["c"])
    x = rnd(g, B, N, cplx=c)
    if case["v"]:
        a = rnd(g, N, cplx=c) if case["a"] != "B" else rnd(g, B, N, cplx=c)
        af = np.broadcast_to(a, (B, N))
    else:
        a = rnd(g, *{"s": (), "1": (1,), "B": (B,)}[case["a"]], cplx=c)
        af = np.broadcast_to(np.reshape(a, (-1, 1)), (B, N))
    a, af = a * 0.7, af * 0.7
    i = rnd(g, *{"s": (), "1": (1,), "B": (B,)}[case["i"]], cplx=c)
    If = np.broadcast_to(np.reshape(i, (-1,)), (B,))
    ref = np.zeros((B, N), dtype=np.result_type(x, a, i))
    for b in range(B):
        h = If[b]
        for t in range(N):
            h = af[b, t] * h + x[b, t]
            ref[b, t] = h
    args = [T(a, case["lay"]), T(i, case["lay"]), T(x, case["lay"])]
    fr = Frame(*args)
    y = call((lpv if case["v"] else lti).linear_recurrence, *args, **dd(case, dict(unroll_factor=case["u"]), unroll_factor=1))
    close(y, ref, "sequence")
    fr.check()


# ------------------------------------------------------------------ C04 compiled operators

OPS = ["recur2", "recurN", "lti_recur2", "lti_recurN", "lti_recur"]


def op(name):
    return getattr(torch.ops.philtorch, name)


def gen_C04(r):
    i = 0
    # inconsistent operands must be rejected
    for name in OPS:
        for bad in range(21):
            yield dict(op=name, mode="bad", bad=bad, B=3, N=4, M=2 if name.endswith("2") else 3, s=0)
            yield dict(op=name, mode="bad", bad=bad, B=2, N=5, M=2, s=1)
    for name in OPS:
        for B, N, M, sh in itertools.product((1, 2, 3), (1, 2, 5), (1, 2, 3), (0, 1)):
            if name.endswith("2") and M != 2:
                continue
            yield dict(op=name, mode="ok", B=B, N=N, M=M, shared=sh, dt="f64", lay="c", s=0)
        for lay, M, c in itertools.product("fslj", (2, 3), ("f64", "c128")):
            if not (name.endswith("2") and M != 2):
                yield dict(op=name, mode="ok", B=3, N=5, M=M, shared=0, dt=c, lay=lay, s=0)
    while True:
        i += 1
        name = r.choice(OPS)
        if r.random() < 0.15:
            yield dict(op=name, mode="bad", bad=r.randint(0, 20), B=r.randint(1, 4), N=r.randint(1, 6),
                       M=2 if name.endswith("2") else r.randint(1, 4), s=i)
        else:
            yield dict(op=name, mode="ok", B=r.choice([1, 2, 3, 5, 17]), N=r.choice([1, 2, 3, 7, 16, 33, 40]),
                       M=2 if name.endswith("2") else r.randint(1, 5), shared=r.randint(0, 2),
                       dt=r.choice(["f64", "f64", "c128", "f32", "c64"]), lay=r.choice("cfslj"), s=i)


DT = {"f64": torch.float64, "c128": torch.complex128, "f32": torch.float32, "c64": torch.complex64}


def op_operands(g, name, B, N, M, shared, c):
    if name == "lti_recur":
        a = rnd(g, *{0: (B,), 1: (), 2: (1,)}[shared], cplx=c) * 0.6
        return a, rnd(g, B, cplx=c), rnd(g, B, N, cplx=c)
    lead = (() if shared else (B,)) + (() if name.startswith("lti") else (N,))
    return stable_mats(g, lead, M, c), rnd(g, B, M, cplx=c), rnd(g, B, N, M, cplx=c)


def ref_op(name, A, zi, x):
    B, N = x.shape[:2]
    if name == "lti_recur":
        Af = np.broadcast_to(np.reshape(A, (-1, 1, 1, 1)), (B, N, 1, 1))
        return ref_states(Af, zi[:, None], x[..., None])[..., 0]
    M = x.shape[-1]
    if name.startswith("lti"):
        Af = np.broadcast_to(A[:, None] if A.ndim == 3 else A, (B, N, M, M))
    else:
        Af = np.broadcast_to(A, (B, N, M, M))
    return ref_states(Af, zi, x)


def bad_operands(case, g):
    name, B, N, M = case["op"], case["B"], case["N"], case["M"]
    A, zi, x = op_operands(g, name, B, N, M, case["s"] % 2, False)
    k = case["bad"]
    lt = name == "lti_recur"
    if k == 0: zi = np.concatenate([zi, zi])  # zi batch too large
    elif k == 1: zi = zi[:0]
    elif k == 2: x = np.concatenate([x, x])  # x batch too large
    elif k == 3:  # per-batch A with another batch size
        A, _, _ = op_operands(g, name, B + 1, N, M, 0, False)
        if lt and B + 1 == 1: return None
    elif k == 4:
        A, _, _ = op_operands(g, name, 2 * B + 1, N, M, 0, False)
    elif k == 5:  # time mismatch
        if name.startswith("lti"): return None
        A, _, _ = op_operands(g, name, B, N + 1, M, case["s"] % 2, False)
    elif k == 6:
        if name.startswith("lti"): return None
        if N == 1: return None
        A, _, _ = op_operands(g, name, B, N - 1, M, case["s"] % 2, False)
    elif k == 7:  # non-square / wrong state size
        if lt: return None
        A = np.concatenate([A, A], -1)
    elif k == 8:
        if lt: return None
        A = np.concatenate([A, A], -2)
    elif k == 9:
        if lt: return None
        zi = np.concatenate([zi, zi], -1)
    elif k == 10:
        if lt: return None
        x = np.concatenate([x, x], -1)
    elif k == 12:  # a batch of one where the batch is larger
        if B == 1 or lt or case["s"] % 2: return None
        A = A[:1]
    elif k == 13:
        if B == 1: return None
        zi = zi[:1]
    elif k == 14:
        if B == 1: return None
        x = x[:1]
    elif k == 15:  # a time axis of one where the signal is longer
        if name.startswith("lti") or N == 1: return None
        A = A.take([0], axis=A.ndim - 3)
    elif k == 16:
        if lt or M == 1: return None
        zi = zi[:, :1]
    elif k == 17:
        if lt or M == 1: return None
        x = x[..., :1]
    elif k == 18:
        if lt or M == 1: return None
        A = A[..., :1]
    elif k == 19:  # one axis too many
        zi, x = np.stack([zi] * 2, -1), np.stack([x] * 2, -1)
    elif k == 20:
        if lt: return None
        zi, x = zi[..., 0], x[..., 0]
    elif k == 11:
        zi = zi.astype(np.float32)
    return A, zi, x


def run_C04(case):
    if not EXT:
        return SKIP
    g = rng_of(case)
    f = op(case["op"])
    if case["mode"] == "bad":
        ops = bad_operands(case, g)
        if ops is None:
            return SKIP
        ts = [torch.from_numpy(np.ascontiguousarray(v)) for v in ops]
        try:
            y = f(*ts)
        except Exception:
            return
        raise Bad(f"inconsistent operands of shapes {[tuple(t.shape) for t in ts]} dtypes {[str(t.dtype) for t in ts]} accepted (result {tuple(y.shape)})")
    c = case["dt"].startswith("c")
    A, zi, x = op_operands(g, case["op"], case["B"], case["N"], case["M"], case["shared"] if case["op"] == "lti_recur" else case["shared"] % 2, c)
    ref = ref_op(case["op"], A, zi, x)
    ts = [T(v, case["lay"]).to(DT[case["dt"]]) for v in (A, zi, x)]
    fr = Frame(*ts)
    y = call(f, *ts)
    dtype_is(y, DT[case["dt"]], "operator result")
    close(y, ref, case["op"], 1e-7 if case["dt"] in ("f64", "c128") else 1e-3)
    fr.check()


# ------------------------------------------------------------------ C05 / C06 state space

# operand kinds -> axes;   b=batch n=time m=state p=output f=feature
B_LTI = ["m", "bm", "mf", "bmf"]
C_LTI = ["m", "bm", "pm", "bpm"]
D_LTI = ["", "1", "f", "b", "p", "bf", "bp", "pf", "bpf"]
B_LPV = ["m", "mf", "nm", "bm", "nmf", "bnm", "bmf", "bnmf"]
C_LPV = ["m", "nm", "bm", "pm", "bnm", "npm", "bpm", "bnpm"]
D_LPV = ["", "1", "f", "n", "b", "p", "nf", "bf", "bn", "np", "bp", "pf", "bnf", "bnp", "npf", "bpf", "bnpf"]


def shp(kind, d):
    return tuple(1 if k == "1" else d[k] for k in kind)


def ok_B(kind, xd): return (("f" in kind) == (xd == 3))
def ok_D(kind, xd): return kind in ("",) or (("f" in kind) == (xd == 3))


def ambiguous(kind, kinds, d):
    """another reading of the same shape exists (then only the fullest reading is specified)"""
    s = shp(kind, d)
    return [k for k in kinds if k != kind and shp(k, d) == s]


def expand(v, kind, axes, d):
    """operand -> array with all axes in `axes` (letters), missing ones broadcast"""
    v = np.asarray(v)
    src = kind.replace("1", "")
    if kind == "1":
        v = v.reshape(())
    idx = [slice(None) if a in src else None for a in axes]
    v = v[tuple(idx)] if axes else v
    return np.broadcast_to(v, tuple(d[a] if (a in src or a in "bnpmf") else 1 for a in axes))


def gen_ss(r, tv_, diag):
    i = 0
    while True:
        i += 1
        xd = r.choice([2, 3])
        M = r.choice([1, 2, 2, 3])
        N = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 13, 16])
        B = r.choice([1, 2, 3, M, min(N, 4)])
        F = r.choice([1, 2, 3]) if xd == 3 else 1
        P = r.choice([1, 2, 3, 4, M])
        if r.random() < 0.35:
            N = B = r.choice([2, 3, 4])
        Bk = r.choice([None] + [k for k in (B_LPV if tv_ else B_LTI) if ok_B(k, xd)])
        if Bk is None and xd == 3:
            F = M
        Ck = r.choice([None, None] + (C_LPV if tv_ else C_LTI))
        o = r.choice([None, 0, M - 1]) if Ck is None else None
        Dk = r.choice([None] + [k for k in (D_LPV if tv_ else D_LTI) if ok_D(k, xd)])
        yield dict(B=B, N=N, M=M, F=F, P=P, xd=xd, Ak=r.choice((["n", "bn"] if tv_ else ["", "b"])), Bk=Bk, Ck=Ck, Dk=Dk, o=o,
                   zi=r.choice([None, "m", "bm"]), u=r.choice([None, 1, 1, 2, 3, 4, N, N + 1]), c=r.choice([0, 0, 1]),
                   lay=r.choice("ccfs"), diag=(r.choice(["A", "LV", "LVi", "LVV", "LA", "L"]) if diag and r.random() < 0.4 else None), s=i)


def prep_ss(case, tv_):
    """None if the combination is outside the contract (dimension-inconsistent or ambiguous)"""
    d = {"b": case["B"], "n": case["N"], "m": case["M"], "f": case["F"], "p": case["P"]}
    xd, Bk, Ck, Dk, o = case["xd"], case["Bk"], case["Ck"], case["Dk"], case["o"]
    # output dimension: from C (p or scalar) or the state
    if Ck is None:
        scalar_out = o is not None
        if not scalar_out:
            d["p"] = d["m"]
    else:
        scalar_out = "p" not in Ck
    if Bk is None and xd == 3 and d["f"] != d["m"]:
        return None
    if Dk is not None:
        if Dk in ("", "1"):
            if not scalar_out or xd == 3:
                return None  # scalar D with vector output: not a y = C h + D x of matching sizes
        elif ("p" in Dk) == scalar_out:
            return None
    Bs, Cs, Ds = (B_LPV, C_LPV, D_LPV) if tv_ else (B_LTI, C_LTI, D_LTI)
    full = {"bnm", "bnmf", "bnpm", "bn", "bnf", "bnp", "bnpf"}
    if Bk and Bk not in full and ambiguous(Bk, [k for k in Bs if ok_B(k, xd)], d):
        return None
    if Ck and Ck not in full and ambiguous(Ck, Cs, d):
        return None
    if Dk is not None and Dk not in full:
        amb = ambiguous(Dk, Ds if xd == 3 else [k for k in Ds if "f" not in k], d)
        if Dk == "1" or Dk == "b" and d["b"] == 1 and scalar_out:
            amb = [k for k in amb if k not in ("1", "b", "n")]
        if Dk in ("n",) and d["n"] == 1:
            amb = [k for k in amb if k not in ("1",) and not (k == "b")]
        if Dk == "p" and amb:
            return None
        if amb:
            return None
    elif Dk in full and xd == 3 and Dk == "bn":
        return None
    return d, scalar_out


def run_ss(case, tv_):
    p = prep_ss(case, tv_)
    if p is None:
        return SKIP
    d, scalar_out = p
    g = rng_of(case)
    c = bool(case["c"])
    B, N, M, F, P = d["b"], d["n"], d["m"], d["f"], d["p"]
    Ak, Bk, Ck, Dk, o, xd = (case[k] for k in ("Ak", "Bk", "Ck", "Dk", "o", "xd"))
    diag = case.get("diag")
    ds = {**d, "1": 1}
    if diag:
        lead = shp(Ak, d)
        L = np.empty(lead + (M,), dtype=complex)
        for ix in np.ndindex(*lead):
            for k in range(M):
                L[ix + (k,)] = (0.4 + 0.4 * g.random()) * np.exp(2j * np.pi * (k + 0.5 * g.random()) / M)
        V = rnd(g, *lead, M, M, cplx=True) * 0.3 + np.eye(M)
        if diag == "L":
            V = np.broadcast_to(np.eye(M), V.shape) + 0j
        Vi = np.linalg.inv(V)
        A = (V * L[..., None, :]) @ Vi
        if np.linalg.cond(V).max() > 50:
            return SKIP
    else:
        A = stable_mats(g, shp(Ak, d), M, c)
    x = rnd(g, *((B, N) if xd == 2 else (B, N, F)), cplx=c)
    Bm = None if Bk is None else rnd(g, *shp(Bk, d), cplx=c)
    C = None if Ck is None else rnd(g, *shp(Ck, d), cplx=c or bool(diag))
    D = None if Dk is None else rnd(g, *shp(Dk, ds), cplx=c)
    zi = None if case["zi"] is None else rnd(g, *shp(case["zi"], d), cplx=c)
    # full versions
    Af = expand(A, Ak + "mk", "bnmk", {**d, "k": M})
    if Bk is None:
        Bf = np.zeros((B, N, M, F))
        if xd == 2:
            Bf[..., 0, 0] = 1
        else:
            Bf[...] = np.eye(M)
    else:
        Bf = expand(Bm, Bk, "bnmf", d)
    if Ck is None:
        Cf = np.eye(M) if o is None else np.eye(M)[[o]]
        Cf = np.broadcast_to(Cf, (B, N) + Cf.shape)
    else:
        Cf = expand(C, Ck, "bnpm", {**d, "p": P if "p" in Ck else 1})
    Pn = Cf.shape[-2]
    if Dk is None:
        Df = np.zeros((B, N, Pn, F))
    else:
        Df = expand(D, Dk, "bnpf", {**d, "p": Pn})
    xf = x if xd == 3 else x[..., None]
    z0 = np.zeros((B, M)) if zi is None else np.broadcast_to(zi, (B, M))
    y, hs, zf = ref_ss(Af, Bf, Cf, Df, xf, z0)
    if scalar_out:
        y = y[..., 0]
    lay = case["lay"]
    t = lambda v: None if v is None else T(v, lay)
    kw = dd(case, dict(B=t(Bm), C=t(C), D=t(D), zi=t(zi), out_idx=o, unroll_factor=case["u"]), B=None, C=None, D=None, zi=None, out_idx=None, unroll_factor=None)
    tx = t(x)
    tol = 1e-7
    if diag:
        tol = 1e-5
        tL, tV, tVi, tA = t(L), t(V), t(Vi), t(A)
        a = {"A": dict(A=tA), "LV": dict(L=tL, V=tV), "LVi": dict(L=tL, Vinv=tVi), "LVV": dict(L=tL, V=tV, Vinv=tVi),
             "LA": dict(L=tL, A=tA), "L": dict(L=tL)}[diag]
        if diag in ("LA", "L") and Ak == "b":
            return SKIP
        fr = Frame(tx, *a.values(), *[v for v in kw.values()])
        out = call(lti.diag_state_space, tx, **a, **kw)
    else:
        tA = t(A)
        fr = Frame(tx, tA, *[v for v in kw.values()])
        out = call((lpv if tv_ else lti).state_space, tA, tx, **kw)
    if zi is None:
        if isinstance(out, tuple):
            raise Bad("a final state was returned without initial state")
        close(out, y, "output", tol)
    else:
        if not isinstance(out, tuple) or len(out) != 2:
            raise Bad("no final state returned")
        close(out[0], y, "output", tol)
        close(out[1], zf, "final state", tol)
    fr.check()


def gen_C05(r): return gen_ss(r, False, True)
def run_C05(c): return run_ss(c, False)
def gen_C06(r): return gen_ss(r, True, False)
def run_C06(c): return run_ss(c, True)
