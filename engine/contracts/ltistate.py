"""Contracts of lti/ssm.py: _ssm_C_D, _ext_ss_recur, state_space."""
from spec import *
import load
from contracts import ops
from contracts.scalar import need
from contracts.ltissm import H_mat, drive, entry, contract_rec, pre_recursion, select, pick_out, want_state

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


# ---------------------------------------------------------------- shapes of B, C, D
# B: input matrix, C: output matrix, D: feedthrough; letters: b batch, m states, f features, o outputs
B_FORMS = {2: (None, "m", "bm"), 3: (None, "mf", "bmf")}
C_FORMS = (None, "m", "bm", "om", "bom")
D_FORMS = {2: {0: ("", "1", "b"), 1: ("o", "bo")}, 3: {0: ("f", "bf"), 1: ("of", "bof")}}


def operand(name, form, d, real):
    if form is None:
        return None
    return arg(name, tuple(d[c] for c in form), real)


def mget(t, form):
    """dict of indices by letter -> entry."""
    f = T.freeze(t)
    return lambda **i: f(tuple(ZERO if c == "1" else i[c] for c in form))


def drive_B(Bt, form, x, d):
    """(b, t, i) -> (B x_t)[i]"""
    if Bt is None:
        return drive(x)
    g, fx = mget(Bt, form), T.freeze(x)
    if "f" in form:
        return lambda b, t, i: Sum(ZERO, T.P_(d["f"]), lambda q: g(b=b, m=i, f=q) * fx((b, t, q)))
    return lambda b, t, i: g(b=b, m=i) * fx((b, t))


def out_C(C, form, h, M):
    """(b, t[, o]) -> (C h_t)[o]; h(b, t, i)."""
    if C is None:
        return (lambda b, t, o: h(b, t, o))
    g = mget(C, form)
    return lambda b, t, o=None: Sum(ZERO, T.P_(M), lambda q: g(b=b, m=q, o=o) * h(b, t, q))


def out_D(D, form, x, d):
    g, fx = mget(D, form), T.freeze(x)
    if "f" in form:
        return lambda b, t, o=None: Sum(ZERO, T.P_(d["f"]), lambda q: g(b=b, o=o, f=q) * fx((b, t, q)))
    return lambda b, t, o=None: g(b=b, o=o) * fx((b, t))


def sizes(xd, M=None):
    d = dict(b=size("B"), n=size("N"), m=M if M is not None else size("M"), o=size("O"))
    d["1"] = 1
    if xd == 3:
        d["f"] = size("F")
    return d


def unambiguous(d, bf, cf, df, xd):
    """The shapes that the documentation cannot tell apart are excluded (see DESIGN.md)."""
    B, M, O = d["b"], d["m"], d["o"]
    if bf == "mf" or bf == "bm":
        pass
    if cf == "om":
        requires(O != B)
    if df == "o":
        requires(O != B)
        requires(O != 1)
    if df == "of":
        requires(O != B)
    if xd == 3 and df == "bf":
        pass
    if xd == 3 and df == "bof":
        pass


def vecout(cf, oi):
    """Does the output have an output dimension?"""
    if oi:
        return 0
    return 1 if cf in (None, "om", "bom") else 0


def ob_CD(xd, cf, df, real, oi=0):
    def run():
        m = load.Loader().module("philtorch.lti.ssm")
        d = sizes(xd)
        B, N, M = d["b"], d["n"], d["m"]
        if cf is None and not oi:
            d["o"] = M
        unambiguous(d, None, cf, df, xd)
        x = arg("x", (B, N) + ((d["f"],) if xd == 3 else ()), real)
        h = arg("h", (B, N) + (() if oi else (M,)), real)
        C, D = operand("C", cf, d, real), operand("D", df, d, real)
        y = m._ssm_C_D(h, x, C, D, B, M)
        fh = T.freeze(h)
        vo = vecout(cf, oi)
        fc = (lambda b, t, o=None: fh((b, t))) if oi else out_C(C, cf, lambda b, t, i: fh((b, t, i)), M)
        fd = out_D(D, df, x, d) if D is not None else None
        tot = lambda i: toexpr(fc(*i)) + (fd(*i) if fd is not None else ZEROE)
        ensures(y, (B, N) + ((d["o"],) if vo else ()), tot, "y = C h + D x", real)

    return run


def contract_CD(cf, df, d, oi):
    """_ssm_C_D for operands of the declared forms."""

    def _ssm_C_D(h, x, C, D, batch_size, M):
        need(cur().eq0(T.P_(batch_size) - h.sh[0]), "_ssm_C_D: batch_size")
        need(h.dim() == (2 if oi else 3) and (C is None) == (cf is None) and (D is None) == (df is None), "_ssm_C_D: operands")
        need(x.size(0) == h.size(0) and x.size(1) == h.size(1), "_ssm_C_D: lengths")
        if not oi:
            need(cur().eq0(T.P_(M) - h.sh[2]), "_ssm_C_D: M")
        fh = T.freeze(h)
        vo = vecout(cf, oi)
        fc = (lambda b, t, o=None: fh((b, t))) if oi else out_C(C, cf, lambda b, t, i: fh((b, t, i)), h.sh[2])
        fd = out_D(D, df, x, d) if D is not None else None
        real = h._real and (C is None or C._real) and (D is None or (D._real and x._real))
        return T.Tensor(tuple(T.P_(q) for q in h.sh[:2]) + ((T.P_(d["o"]),) if vo else ()), lambda i: toexpr(fc(*i)) + (fd(*i) if fd is not None else ZEROE), real)

    return _ssm_C_D


# ---------------------------------------------------------------- _ext_ss_recur
def ob_ext(ad, xd, oi, real):
    def run():
        ops.install()
        m = load.Loader().module("philtorch.lti.ssm")
        B, N, M = size("B"), size("N"), size("M")
        A = arg("A", ((B,) if ad == 3 else ()) + (M, M), real)
        zi = arg("zi", (B, M), real)
        x = arg("x", (B, N) + ((M,) if xd == 3 else ()), real)
        o = pick_out(oi, M)
        y = m._ext_ss_recur(A, zi, x, unroll_factor=1, out_idx=o)
        s = H_mat(A, zi, x)
        for c in recs_named("E"):
            relate(c, lambda i: app(s, i if c.ndim == 3 else (i[0], i[1], ZERO)), "the operator runs the recursion")
        ensures(y, (B, N) + (() if oi else (M,)), want_state(s, o), "h[t] = A h[t-1] + x[t]", real)

    return run


def contract_ext(A, zi, x, *, out_idx=None, **_):
    pre_recursion("_ext_ss_recur", A, zi, x, out_idx)
    need(A._real == x._real and zi._real == x._real, "_ext_ss_recur: dtypes")
    return select(H_mat(A, zi, x, "X"), out_idx)


def ob_state_space(ext, ad, xd, bf, cf, df, zk, uk, oi, real):
    """zk: None, 'm', 'bm'; uk: None, 1, 'U'."""

    def run():
        m = load.Loader(ext=ext).module("philtorch.lti.ssm")
        d = sizes(xd)
        B, N, M = d["b"], d["n"], d["m"]
        if xd == 3 and bf is None:
            d["f"] = M
        if cf is None and not oi:
            d["o"] = M
        unambiguous(d, bf, cf, df, xd)
        A = arg("A", ((B,) if ad == 3 else ()) + (M, M), real)
        x = arg("x", (B, N) + ((d["f"],) if xd == 3 else ()), real)
        Bm, C, D = operand("B", bf, d, real), operand("C", cf, d, real), operand("D", df, d, real)
        zi = operand("zi", zk, d, real)
        o = pick_out(oi, M)
        U = size("U") if uk == "U" else uk
        m.state_space_recursion = contract_rec("Y")
        m._ext_ss_recur = contract_ext
        m._ssm_C_D = contract_CD(cf, df, d, oi)
        r = m.state_space(A, x, Bm, C, D, zi, unroll_factor=U, out_idx=o)
        fz = mget(zi, zk) if zi is not None else None
        fb, fa = drive_B(Bm, bf, x, d), entry(A)
        MP = T.P_(M)
        s = new_rec("H", (T.P_(B), T.P_(N), MP), 1, None, None, real)
        s.rule = lambda i: Sum(ZERO, MP, lambda j: fa(i[0], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fb(i[0], i[1], i[2])
        s.init = lambda i: fz(b=i[0], m=i[1 + 1]) if fz else ZEROE
        # the output equation reads the state before the update
        h = lambda b, t, i: app(s, (b, t - 1, i))
        vo = vecout(cf, oi)
        fc = (lambda b, t, o_=None: h(b, t, T.P_(o))) if oi else out_C(C, cf, h, M)
        fd = out_D(D, df, x, d) if D is not None else None
        if zk is None:
            y = r
            if isinstance(r, tuple):
                raise Refuted("a final state is returned without zi")
        else:
            if not isinstance(r, tuple) or len(r) != 2:
                raise Refuted("no final state is returned")
            y, zf = r
            ensures(zf, (B, M), lambda i: app(s, (i[0], T.P_(N) - 1, i[1])), "zf = h after the last sample", real)
        ensures(y, (B, N) + ((d["o"],) if vo else ()), lambda i: toexpr(fc(*i)) + (fd(*i) if fd is not None else ZEROE), "y[t] = C h[t] + D x[t]", real)

    return run


for real in (True, False):
    r = "real" if real else "complex"
    for ad in (2, 3):
        for xd in (2, 3):
            for oi in (0, 1):
                add(["C01", "C04"], "lti/ssm._ext_ss_recur A:%dd x:%dd%s %s" % (ad, xd, " out_idx" if oi else "", r), "lti/ssm.py:_ext_ss_recur", ob_ext(ad, xd, oi, real))
    for xd in (2, 3):
        for oi in (0, 1):
            for cf in C_FORMS:
                if oi and cf is not None:
                    continue
                for df in (None,) + D_FORMS[xd][vecout(cf, oi)]:
                    if cf is None and df is None:
                        continue
                    add(["C05"], "lti/ssm._ssm_C_D x:%dd C:%s D:%s%s %s" % (xd, cf, df, " out_idx" if oi else "", r), "lti/ssm.py:_ssm_C_D", ob_CD(xd, cf, df, real, oi))
    for ext in (True, False):
        for ad in (2, 3):
            for xd in (2, 3):
                for bf in B_FORMS[xd]:
                    for zk in (None, "m", "bm"):
                        for oi in (0, 1):
                            uks = (None, 1, "U") if ext else ("U",)
                            for uk in uks:
                                nm = "%s A:%dd x:%dd B:%s zi:%s unroll:%s%s %s" % ("ext" if ext else "no-ext", ad, xd, bf, zk, uk, " out_idx" if oi else "", r)
                                # C and D: the output equation is delegated to _ssm_C_D; one representative per use
                                cf, df = (None, None) if oi else (("om", D_FORMS[xd][1][1]) if zk else (None, None))
                                add(["C05"], "lti/ssm.state_space " + nm, "lti/ssm.py:state_space", ob_state_space(ext, ad, xd, bf, cf, df, zk, uk, oi, real))


# ---------------------------------------------------------------- diag_state_space
def eigen(M, B, batched, areal, vreal):
    """A and L, V, Vinv with A V = V diag(L), V Vinv = Vinv V = 1 (preconditions)."""
    lead = (B,) if batched else ()
    A = arg("A", lead + (M, M), areal)
    L = arg("L", lead + (M,), vreal)
    V = arg("V", lead + (M, M), vreal)
    W = arg("Vinv", lead + (M, M), vreal)
    eigen_relations(A, L, V, W)
    return A, L, V, W


def eigen_relations(A, L, V, W):
    syms = cur().syms
    nm = lambda t: t.sym.name
    bi = lambda X_: tuple(X_[2][:-2])

    def unit(X_, Y):
        if bi(X_) != bi(Y):
            return None
        return X.delta(X_[2][-2], Y[2][-1])

    syms["#pairs"] = True
    syms[("pair", nm(V), nm(W))] = unit
    syms[("pair", nm(W), nm(V))] = unit

    def wa(X_, Y):  # Vinv A = diag(L) Vinv
        if bi(X_) != bi(Y):
            return None
        return app(L.sym, bi(X_) + (X_[2][-2],), X_[3]) * app(W.sym, bi(X_) + (X_[2][-2], Y[2][-1]), X_[3])

    def av(X_, Y):  # A V = V diag(L)
        if bi(X_) != bi(Y):
            return None
        return app(V.sym, bi(X_) + (X_[2][-2], Y[2][-1]), Y[3]) * app(L.sym, bi(X_) + (Y[2][-1],), Y[3])

    syms[("pair", nm(W), nm(A))] = wa
    syms[("pair", nm(A), nm(V))] = av
    if CONCRETE[0] is not None:
        eigen_model(A, L, V, W)


def eigen_model(A, L, V, W):
    """Numbers that satisfy the relations, for the evaluation of residuals at concrete sizes."""
    import numev

    syms = cur().syms
    n = T.P_(A.sh[-1]).cval()

    def make(env, lead):
        key = ("#eigen", A.sym.name, lead)
        if key not in env.val:
            if A._real and not V._real:
                cols, l = [], []
                while len(cols) + 1 < n:
                    v, e = [env.fresh(False, key + (q, len(l))) for q in range(n)], env.fresh(False, key + (len(l),))
                    cols += [v, [z.conj() for z in v]]
                    l += [e, e.conj()]
                if len(cols) < n:
                    cols.append([env.fresh(True, key + (q, len(l))) for q in range(n)])
                    l.append(env.fresh(True, key + (len(l),)))
            else:
                cols = [[env.fresh(V._real, key + (p, q)) for p in range(n)] for q in range(n)]
                l = [env.fresh(V._real, key + (q,)) for q in range(n)]
            v = [[cols[j][i] for j in range(n)] for i in range(n)]
            w = numev.inverse(v)
            a = [[sum((v[i][k] * l[k] * w[k][j] for k in range(n)), numev.G(0)) for j in range(n)] for i in range(n)]
            env.val[key] = (a, l, v, w)
        return env.val[key]

    for k, t in enumerate((A, L, V, W)):
        if k == 1:
            syms[("model", t.sym.name)] = lambda env, i: make(env, i[:-1])[1][i[-1]]
        else:
            syms[("model", t.sym.name)] = lambda env, i, k=k: make(env, i[:-2])[k][i[-2]][i[-1]]


def hooks(A, L, V, W):
    """torch.linalg.eigvals, find_eigenvectors and torch.linalg.inv by their contracts."""
    is_ = lambda t, u: prove_equal_at(u.sh, t.at, u.at, "argument of a linear algebra call")

    def inv(t):
        a = T.freeze(t)
        same_shape(t, V.sh, "linalg.inv")
        i = tuple(cur().newvar(cur().fresh("i"), 0) for _ in t.sh)
        r = X.normalize(toexpr(a(i)))
        who = next(iter(r[0].f))[1] if r else None
        u, v = (V, W) if who == V.sym.name else (W, V)
        is_(t, u)
        return v.clone()

    def eigvals(t):
        is_(t, A)
        return L.clone()

    def find(t, l):
        is_(t, A)
        is_(l, L)
        return V.clone()

    load.INV[0], load.EIGVALS[0] = inv, eigvals
    return find


def contract_lr_c(a, init, x, *, unroll_factor=1):
    from contracts.scalar import contract_lti_lr

    return contract_lti_lr()(a, init, x, unroll_factor=unroll_factor)


def ob_diag(ext, given, batched, xd, bf, cf, df, zk, uk, oi, areal, vreal, creal=None):
    def run():
        ops.install()
        m = load.Loader(ext=ext).module("philtorch.lti.ssm")
        d = sizes(xd)
        B, N, M = d["b"], d["n"], d["m"]
        if xd == 3 and bf is None:
            d["f"] = M
        if cf is None and not oi:
            d["o"] = M
        unambiguous(d, bf, cf, df, xd)
        creal_ = (areal and (vreal or given != "L")) if creal is None else creal
        x = arg("x", (B, N) + ((d["f"],) if xd == 3 else ()), areal)
        Bm, C, D = operand("B", bf, d, areal), operand("C", cf, d, creal_), operand("D", df, d, areal)
        zi = operand("zi", zk, d, areal)
        if given == "L":  # A is the diagonal matrix of L
            L = arg("L", (M,), vreal)
            A = V = W = None
        else:
            A, L, V, W = eigen(M, B, batched, areal, vreal)
        o = pick_out(oi, M)
        U = size("U") if uk == "U" else uk
        if A is not None:
            m.find_eigenvectors = hooks(A, L, V, W)
        m.linear_recurrence = contract_lr_c
        m._ssm_C_D = contract_CD(cf, df, d, oi)
        kw = dict(A=dict(A=A), LV=dict(L=L, V=V), LW=dict(L=L, Vinv=W), LVW=dict(L=L, V=V, Vinv=W), L=dict(L=L))[given]
        r = m.diag_state_space(x, B=Bm, C=C, D=D, zi=zi, out_idx=o, unroll_factor=U, **kw)
        fz = mget(zi, zk) if zi is not None else None
        fb = drive_B(Bm, bf, x, d)
        MP = T.P_(M)
        if A is None:
            fl = T.freeze(L)
            s = new_rec("H", (T.P_(B), T.P_(N), MP), 1, None, None, areal and vreal)
            s.rule = lambda i: fl((i[2],)) * app(s, (i[0], i[1] - 1, i[2])) + fb(i[0], i[1], i[2])
        else:
            fa = entry(A)
            s = new_rec("H", (T.P_(B), T.P_(N), MP), 1, None, None, areal)
            s.rule = lambda i: Sum(ZERO, MP, lambda j: fa(i[0], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fb(i[0], i[1], i[2])
            wt = entry(W)
        s.init = lambda i: fz(b=i[0], m=i[2]) if fz else ZEROE

        def cand(i):
            q, k = cur().divmod(i[0], cur().n(MP))
            if A is None:
                return app(s, (q, i[1], k))
            return Sum(ZERO, cur().n(MP), lambda j: wt(q, k, j) * app(s, (q, i[1], j)))

        for c in recs_named("E") + recs_named("Y"):
            relate(c, cand, "the diagonal recursion runs Vinv h")
        h = lambda b, t, i: app(s, (b, t - 1, i))
        vo = vecout(cf, oi)
        fc = (lambda b, t, o_=None: h(b, t, T.P_(o))) if oi else out_C(C, cf, h, M)
        fd = out_D(D, df, x, d) if D is not None else None
        if zk is None:
            y = r
            if isinstance(r, tuple):
                raise Refuted("a final state is returned without zi")
        else:
            if not isinstance(r, tuple) or len(r) != 2:
                raise Refuted("no final state is returned")
            y, zf = r
            ensures(zf, (B, M), lambda i: app(s, (i[0], T.P_(N) - 1, i[1])), "zf = h after the last sample")
        ensures(y, (B, N) + ((d["o"],) if vo else ()), lambda i: toexpr(fc(*i)) + (fd(*i) if fd is not None else ZEROE), "y[t] = C h[t] + D x[t]")

    return run


GRID = []
for areal, vreal in ((True, True), (True, False), (False, False)):
    for ext in (True, False):
        for given in ("A", "LV", "LW", "LVW", "L"):
            for batched in (0, 1):
                if (given == "A" and vreal) or (given == "L" and batched):
                    continue
                for xd in (2, 3):
                    for bf in B_FORMS[xd]:
                        for zk in (None, "m", "bm"):
                            for oi in (0, 1):
                                # every form of A with the direct cases; the rest of the grid for the computed eigenvectors
                                if given in ("LV", "LW") and (zk == "m" or bf not in (None, "bmf")):
                                    continue
                                GRID.append(((areal, vreal), ext, given, batched, xd, bf, zk, oi))
QUICK = covering(GRID)
for g in GRID:
    (areal, vreal), ext, given, batched, xd, bf, zk, oi = g
    r = {(True, True): "real", (True, False): "real with complex eigenvalues", (False, False): "complex"}[areal, vreal]
    uk = "U" if not ext or (zk == "bm" and bf is None) else 1
    cf, df = (None, None) if oi or zk is None else ("om", D_FORMS[xd][1][1])
    nm = "%s given:%s%s x:%dd B:%s C:%s zi:%s unroll:%s%s %s" % ("ext" if ext else "no-ext", given, " batched" if batched else "", xd, bf, cf, zk, uk, " out_idx" if oi else "", r)
    add(["C05"], "lti/ssm.diag_state_space " + nm, "lti/ssm.py:diag_state_space",
        ob_diag(ext, given, batched, xd, bf, cf, df, zk, uk, oi, areal, vreal), thorough=g not in QUICK)
