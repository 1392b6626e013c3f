"""C11, C12 (derivatives), C21 (abstract kernels), C22, C23 (prototype code)"""
from common import *
import itertools
from props_a import op_operands, OPS, op, bad_operands

TARGETS = ["LTI", "LTIMat", "LPVMat", "op:lti_recur", "op:lti_recur2", "op:lti_recurN", "op:recur2", "op:recurN",
           "pub:lti.ss", "pub:lpv.ss", "pub:lti.rec", "pub:lpv.rec", "pub:lti.ss1"]


def gen_grad(r, fwd):
    ts = [t for t in TARGETS if not (fwd and t.startswith("op:"))]
    for t, B, N, sh, c in itertools.product(ts, (1, 2), (1, 2, 3), (0, 1), (0, 1)):
        yield dict(t=t, B=B, N=N, M=2, sh=sh, c=c, need=[1, 1, 1], u=1, s=0)
    i = 0
    while True:
        i += 1
        t = r.choice(ts)
        yield dict(t=t, B=r.randint(1, 4), N=r.randint(1, 9), M=r.randint(2, 4), sh=r.randint(0, 2), c=r.randint(0, 1),
                   need=r.choice([[1, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1], [1, 0, 1]]), u=r.choice([1, 1, 2, 3]), s=i)


def target(case, g):
    """(function under check, reference built from elementary torch operations, operands) or None"""
    t, B, N, M, sh, c = case["t"], case["B"], case["N"], case["M"], case["sh"], bool(case["c"])
    if not EXT and not t.startswith("pub:l"):
        return None
    if not EXT and t == "pub:lti.ss1":
        return None
    u = case["u"]
    if t in ("LTI", "op:lti_recur", "pub:lti.rec", "pub:lti.ss1"):
        if t == "LTI" and sh == 2:
            return None
        A, zi, x = op_operands(g, "lti_recur", B, N, 1, sh, c)
        if t == "pub:lti.ss1":
            if sh == 2:
                return None
            f = lambda A, z, x: lti.state_space(A.reshape(A.shape + (1, 1)), x, zi=z.unsqueeze(-1), unroll_factor=1)
            ref0 = scal
            def ref(A, z, x):
                h = ref0(A, z, x)
                return torch.cat([z[:, None], h[:, :-1]], 1).unsqueeze(-1), h[:, -1:]
            return f, ref, (A, zi, x)
        if t == "LTI":
            f = philtorch.lti.recur.LTIRecurrence.apply
        elif t == "pub:lti.rec":
            f = lambda a, i, x: lti.linear_recurrence(a, i, x, unroll_factor=u)
        else:
            f = op("lti_recur")
        return f, scal, (A, zi, x)
    if t == "pub:lpv.rec":
        A = rnd(g, *((B, N) if not sh else (N,)), cplx=c) * 0.6
        return (lambda a, i, x: lpv.linear_recurrence(a, i, x, unroll_factor=u)), (lambda a, i, x: mats(
            a.reshape(a.shape + (1, 1)), i.unsqueeze(-1), x.unsqueeze(-1), True)[..., 0]), (A, rnd(g, B, cplx=c), rnd(g, B, N, cplx=c))
    tvq = t in ("LPVMat", "op:recur2", "op:recurN", "pub:lpv.ss")
    if t.endswith("2"):
        M = 2
    A, zi, x = op_operands(g, "recurN" if tvq else "lti_recurN", B, N, M, sh % 2, c)
    if t == "LTIMat":
        f = philtorch.lti.ssm.LTIMatrixRecurrence.apply
    elif t == "LPVMat":
        f = philtorch.lpv.ssm.MatrixRecurrence.apply
    elif t.startswith("op:"):
        f = op(t[3:])
    else:
        mod = lpv if tvq else lti
        f = lambda A, z, x: mod.state_space(A, x, zi=z, unroll_factor=u)
        def ref(A, z, x):
            h = mats(A, z, x, tvq)
            return torch.cat([z[:, None], h[:, :-1]], 1), h[:, -1]
        return f, ref, (A, zi, x)
    return f, (lambda A, z, x: mats(A, z, x, tvq)), (A, zi, x)


def scal(a, z, x):
    h, out = z, []
    for t in range(x.shape[1]):
        h = a * h + x[:, t]
        out.append(h)
    return torch.stack(out, 1)


def mats(A, z, x, tv_):
    h, out = z, []
    for t in range(x.shape[1]):
        At = A[..., t, :, :] if tv_ else A
        h = (At * h.unsqueeze(-2)).sum(-1) + x[:, t]
        out.append(h)
    return torch.stack(out, 1)


def tup(o): return o if isinstance(o, tuple) else (o,)


def gen_C11(r): return gen_grad(r, False)


def run_C11(case):
    g = rng_of(case)
    p = target(case, g)
    if p is None:
        return SKIP
    f, ref, vals = p
    ins = [T(v).requires_grad_(bool(n)) for v, n in zip(vals, case["need"])]
    ins2 = [T(v).requires_grad_(bool(n)) for v, n in zip(vals, case["need"])]
    o, o2 = tup(call(f, *ins)), tup(ref(*ins2))
    for q, q2 in zip(o, o2):
        close(q, npy(q2), "forward value")
    gs = [T(rnd(g, *q.shape, cplx=bool(case["c"]))) for q in o]
    fr = Frame(*ins, *gs)
    w = [i for i, n in zip(ins, case["need"]) if n]
    w2 = [i for i, n in zip(ins2, case["need"]) if n]
    gr = call(torch.autograd.grad, o, w, gs, allow_unused=True)
    gr2 = torch.autograd.grad(o2, w2, gs, allow_unused=True)
    for k, (a, b) in enumerate(zip(gr, gr2)):
        if a is None:
            a = torch.zeros_like(w[k])
        if b is None:
            b = torch.zeros_like(w2[k])
        close(a, npy(b), f"gradient for operand {[i for i, n in enumerate(case['need']) if n][k]}")
    fr.check()


def gen_C12(r): return gen_grad(r, True)


def run_C12(case):
    import torch.autograd.forward_ad as fwAD
    g = rng_of(case)
    p = target(case, g)
    if p is None:
        return SKIP
    f, ref, vals = p
    tans = [T(rnd(g, *np.shape(v), cplx=bool(case["c"]))) for v in vals]
    res = []
    for h in (f, ref):
        with fwAD.dual_level():
            ins = [fwAD.make_dual(T(v), t) if n else T(v) for v, t, n in zip(vals, tans, case["need"])]
            o = tup(call(h, *ins) if h is f else h(*ins))
            res.append([fwAD.unpack_dual(q) for q in o])
    for a, b in zip(*res):
        ta = torch.zeros_like(a.primal) if a.tangent is None else a.tangent
        tb = torch.zeros_like(b.primal) if b.tangent is None else b.tangent
        close(ta, npy(tb), "tangent")


# ------------------------------------------------------------------ C21


def gen_C21(r):
    for name in OPS:
        for bad in [*range(11), *range(12, 21)]:
            yield dict(op=name, mode="bad", bad=bad, B=3, N=4, M=2 if name.endswith("2") else 3, s=0)
            yield dict(op=name, mode="bad", bad=bad, B=2, N=5, M=2, s=1)
    i = 0
    while True:
        i += 1
        name = r.choice(OPS)
        yield dict(op=name, mode=r.choice(["ok", "ok", "ok", "bad"]), bad=r.choice([*range(11), *range(12, 21)]), B=r.randint(1, 4), N=r.randint(1, 6),
                   M=2 if name.endswith("2") else r.randint(1, 4), shared=r.randint(0, 2), dt=r.choice(["f64", "c128", "f32", "c64"]),
                   lay=[r.choice("cfs") for _ in range(3)], s=i)


def run_C21(case):
    if not EXT:
        return SKIP
    from torch._subclasses.fake_tensor import FakeTensorMode
    from props_a import DT
    g = rng_of(case)
    f = op(case["op"])
    if case["mode"] == "bad":
        ops = bad_operands(case, g)
        if ops is None:
            return SKIP
        ts = [torch.from_numpy(np.ascontiguousarray(v)) for v in ops]
    else:
        A, zi, x = op_operands(g, case["op"], case["B"], case["N"], case["M"], case["shared"] if case["op"] == "lti_recur" else case["shared"] % 2, case["dt"].startswith("c"))
        ts = [T(v).to(DT[case["dt"]]) for v in (A, zi, x)]
        ts = [relayout(t, k) for t, k in zip(ts, case["lay"])]
    try:
        real = f(*ts)
    except Exception as e:
        real = e
    with FakeTensorMode(allow_non_fake_inputs=False) as mode:
        fts = [mode.from_tensor(t) for t in ts]
        try:
            fake = f(*fts)
            fk = (tuple(fake.shape), fake.dtype, tuple(fake.stride()), fake.device.type)
        except Exception as e:
            fk = e
    if isinstance(real, Exception):
        if case["mode"] == "ok":
            raise Bad(f"real operator rejects consistent operands: {str(real)[:120]}")
        if not isinstance(fk, Exception):
            raise Bad(f"abstract kernel accepts shapes {[tuple(t.shape) for t in ts]} that the operator rejects")
        return
    if isinstance(fk, Exception):
        if case["mode"] == "bad":
            return
        raise Bad(f"abstract kernel rejects consistent operands: {str(fk)[:160]}")
    rk = (tuple(real.shape), real.dtype, tuple(real.stride()), real.device.type)
    # strides of size-1 axes carry no meaning
    norm = lambda k: (k[0], k[1], tuple(s for s, n in zip(k[2], k[0]) if n != 1), k[3])
    if norm(fk) != norm(rk):
        raise Bad(f"abstract result {fk} but real result {rk} for shapes {[tuple(t.shape) for t in ts]} strides {[t.stride() for t in ts]}")


def relayout(t, kind):
    if kind == "c" or t.ndim == 0:
        return t
    if kind == "f":
        return t.permute(*reversed(range(t.ndim))).contiguous().permute(*reversed(range(t.ndim)))
    base = torch.zeros([2 * s + 1 for s in t.shape], dtype=t.dtype)
    v = base[tuple(slice(1, None, 2) for _ in t.shape)]
    v.copy_(t)
    return v


# ------------------------------------------------------------------ C22


def gen_C22(r):
    i = 0
    while True:
        i += 1
        L = r.randint(3, 12)
        yield dict(f=r.choice(["affine", "tanh", "mix"]), B=r.randint(1, 3), L=L, D=r.randint(1, 3), k=r.randint(1, min(L - 1, 6)),
                   fp=r.randint(0, 1), u=r.choice([1, 1, 2, 3]), tol=r.choice([0, 0, 1, 2]), rest=r.choice([None, 0, -1, 1]), s=i)


def run_C22(case):
    from philtorch.prototype.nl import newton_solve
    g = rng_of(case)
    B, L, D, k = case["B"], case["L"], case["D"], case["k"]
    W = T(rnd(g, D, D) * 0.6 / np.sqrt(D))
    kind = case["f"]
    if kind == "affine":
        f = lambda y, x: y @ W.mT + x
        J = lambda y, x: W.expand(y.shape[0], y.shape[1], D, D)
    elif kind == "tanh":
        f = lambda y, x: torch.tanh(y @ W.mT + x)
        J = lambda y, x: (1 - torch.tanh(y @ W.mT + x) ** 2).unsqueeze(-1) * W
    else:
        f = lambda y, x: torch.sin(x) * (y @ W.mT) + x * torch.cos(0.3 * y)
        J = lambda y, x: torch.sin(x).unsqueeze(-1) * W + torch.diag_embed(-0.3 * x * torch.sin(0.3 * y))
    x, y0, init = T(rnd(g, B, L, D)), T(rnd(g, B, L, D)), T(rnd(g, B, D))
    if case.get("rest") is not None and case["rest"] < B:  # one element that is at rest and already solved
        for t in (x, y0, init):
            t[case["rest"]] = 0
    fr = Frame(x, y0, init)
    tol = {0: dict(atol=0.0, rtol=0.0), 1: {}, 2: dict(atol=1e-3, rtol=1e-2)}[case.get("tol", 0)]
    kw = dict(fprime=J if case["fp"] else None, unroll_factor=case["u"])
    y, it = call(newton_solve, f, x, y0, init, max_iter=k, **tol, **kw)
    if tol.get("atol") != 0 and int(it) < k:
        prev = y0 if it == 1 else call(newton_solve, f, x, y0, init, max_iter=int(it) - 1, atol=0.0, rtol=0.0, **kw)[0]
        lim = 2 * (tol.get("atol", 1e-6) + tol.get("rtol", 1e-6) * prev.abs()) + 1e-9
        if bool(((y - prev).abs() > lim).any()):
            raise Bad(f"stopped after {it} of {k} iterations although the last update was {(y - prev).abs().max():.3g}")
    h, ref = init, []
    for t in range(L):
        h = f(h[:, None], x[:, t:t + 1])[:, 0]
        ref.append(h)
    ref = npy(torch.stack(ref, 1))
    if tuple(y.shape) != ref.shape:
        raise Bad(f"shape {tuple(y.shape)}")
    m = L if kind == "affine" else min(int(it), L)
    close(y[:, :m], ref[:, :m], f"first {m} samples after {it} iterations")
    fr.check()


# ------------------------------------------------------------------ C23


def gen_C23(r):
    i = 0
    while True:
        i += 1
        yield dict(f=r.choice(["add", "sub", "mul", "der", "val", "div", "smul", "residue", "residuez", "sos", "cres"]), m=r.randint(0, 6), n=r.randint(0, 5),
                   small=r.choice([0, 0, 3e-2, 5e-4, 2e-5, 1e-6]), c=r.randint(0, 1), lead0=r.choice([0, 0, 1, 2]), k=r.randint(0, 3), rep=r.choice([0, 0, 1]), s=i)


def run_C23(case):
    from philtorch.prototype import poly as pp, signal as ps
    g = rng_of(case)
    f, m, n, c = case["f"], case["m"], case["n"], bool(case["c"])
    u, v = rnd(g, m + 1, cplx=c), rnd(g, n + 1, cplx=c)
    v[0] = 1 + abs(v[0])
    u[0] = 1 + abs(u[0])
    if f in ("add", "sub", "mul", "val", "der"):
        u = np.concatenate([np.zeros(case["lead0"]), u])
    if case["small"] and f == "div":  # a dividend whose remainder has a small leading coefficient
        q0, r0 = rnd(g, max(m - n, 0) + 1, cplx=c), rnd(g, max(n, 1), cplx=c)
        r0[: 1 + case["k"]] *= case["small"]
        u = np.polyadd(np.polymul(q0, v), r0) if n else u
    tu, tv_ = T(u), T(v)
    fr = Frame(tu, tv_)
    pts = rnd(g, 5, cplx=True)
    ev = lambda p: np.polyval(np.atleast_1d(npy(p) if isinstance(p, torch.Tensor) else p), pts)
    if f == "add":
        close(ev(call(pp.polyadd, tu, tv_)), ev(u) + ev(v), "sum", 1e-6)
    elif f == "sub":
        close(ev(call(pp.polysub, tu, tv_)), ev(u) - ev(v), "difference", 1e-6)
    elif f == "mul":
        close(ev(call(pp.polymul, tu, tv_)), ev(u) * ev(v), "product", 1e-6)
    elif f == "smul":
        w = T(rnd(g, 3, cplx=c))
        close(ev(call(pp.polysmul, tu, tv_, w)), ev(u) * ev(v) * ev(w), "product of several", 1e-6)
    elif f == "der":
        k = case["k"]
        d = u
        for _ in range(k):
            d = np.polyder(d) if len(d) > 1 else np.zeros(1)
        close(ev(call(pp.polyder, tu, k)), ev(d), "derivative", 1e-6)
    elif f == "val":
        xx = T(rnd(g, 4, cplx=c))
        got = npy(call(pp.polyval, tu, xx))
        close(np.broadcast_to(got, (4,)), np.polyval(u, npy(xx)), "value", 1e-6)
    elif f == "div":
        q, r = call(pp.polydiv, tu, tv_)
        close(ev(q) * ev(v) + ev(r), ev(u), "q v + r", 1e-5 if not case["small"] else 3e-7)
        if n and m >= n and npy(r).shape[0] > n:
            raise Bad(f"remainder of length {npy(r).shape[0]} for a divisor of degree {n}")
    elif f == "sos":
        # sections with well separated real or conjugate poles; with "rep" the last two sections share their poles
        nsec, z = case["n"] % 4 + 1, np.exp(1j * np.linspace(0.3, 2.8, 6)) * 1.7
        rp, cp = [0.9, -0.75, 0.5, -0.4, 0.2, -0.1, 0.7, -0.6], [0.3 + 0.8j, -0.5 + 0.6j, 0.1 + 0.5j, -0.2 + 0.9j]
        secs = []
        for i in range(nsec):
            if g.random() < 0.5:
                a2 = np.poly(np.array(rp[2 * i: 2 * i + 2]) * (1 + 0.03 * g.random(2)))
            else:
                cc = cp[i] * (1 + 0.03 * g.random())
                a2 = np.poly([cc, np.conj(cc)]).real
            if case["rep"] and i and i == nsec - 1:
                a2 = secs[-1][3:] / secs[-1][3]
            b2 = rnd(g, 3)
            b2[0] = (0.5 + abs(b2[0])) * (1 if case["k"] else -1)
            secs.append(np.concatenate([b2, a2 * (1 + g.random())]))
        sos = T(np.stack(secs))
        fr = Frame(sos)
        (rr, cr), (rpo, cpo), (rw, cw), k = call(ps.sos2pfe, sos)
        got = npy(k) + 0 * z
        for ri, pi, wi in zip(npy(rr), npy(rpo), npy(rw)):
            got = got + ri * (z - pi) ** -float(wi)
        for ri, pi, wi in zip(npy(cr), npy(cpo), npy(cw)):
            got = got + ri * (z - pi) ** -float(wi) + np.conj(ri) * (z - np.conj(pi)) ** -float(wi)
        want = np.prod([np.polyval(q[:3], z) / np.polyval(q[3:], z) for q in secs], axis=0)
        close(got, want, "partial fractions of second-order sections recombined", 2e-3 if case["rep"] else 1e-5)
    else:
        deg = case["n"] % 4 + 1
        lead = 1.7
        roots_ = np.array([0.9, -0.7, 0.45, -0.3])[:deg] * (1 + 0.05 * g.random(deg))
        if f == "cres":
            f = "residue" if case["lead0"] else "residuez"
            roots_ = np.concatenate([[0.4 + 0.7j, 0.4 - 0.7j], roots_[:2] if deg > 1 else [-0.5 + 0.6j, -0.5 - 0.6j]])
        elif case["rep"]:
            roots_ = np.concatenate([roots_[:2], roots_[:1]])
        a = np.real(np.poly(roots_)) * lead
        b = rnd(g, case["m"] % 5 + 1)
        tb, ta = T(b), T(a)
        r, p, k = call(ps.residue if f == "residue" else ps.residuez, tb, ta, tol=1e-3)
        r, p, k = npy(r), npy(p), npy(k)
        z = np.exp(1j * np.linspace(0.3, 2.8, 5)) * 1.6
        if f == "residue":
            want = np.polyval(b, z) / np.polyval(a, z)
            got = np.polyval(k, z) if k.size else np.zeros(5, complex)
            term = lambda pi, e: (z - pi) ** -e
        else:
            zi_ = 1 / z
            want = np.polyval(b[::-1], zi_) / np.polyval(a[::-1], zi_)
            got = np.polyval(k[::-1], zi_) if k.size else np.zeros(5, complex)
            term = lambda pi, e: (1 - pi * zi_) ** -float(e)
        mult = {}
        for ri, pi in zip(r, p):
            key = complex(np.round(pi, 9))
            mult[key] = mult.get(key, 0) + 1
            got = got + ri * term(pi, mult[key])
        close(got, want, "partial fractions recombined", 2e-3 if case["rep"] else 1e-5)
    fr.check()
