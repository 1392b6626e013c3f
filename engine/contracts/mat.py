"""Contracts of mat.py: companion, vandermonde, matrix powers, ordered cumulative products."""
from spec import *
import load
from contracts.scalar import need

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


def apply_relations(ent):
    """The terms of ent with the established equalities of recursion symbols applied."""
    c = cur()
    for _ in range(6):
        hit = None
        for t in ent.t:
            for b, e in t.f.items():
                if b[0] == "app" and b[1] in c.rel and e == ONE:
                    hit = (t, b)
        if hit is None:
            break
        t, b = hit
        fn = c.rel[b[1]]
        new = X.rebuild(t, lambda s: X.term_body(t, s, (b,)) * X.maybe_conj(fn(tuple(x.subst(s) for x in b[2])), b[3])).t
        ent = X.Expr([u for u in ent.t if u is not t] + new)
    return ent.t


# ------------------------------------------------------------------ matrix powers
def mat_power_entry(A):
    """For a matrix operand A: fn(batch, e, i, j) = (A^e)[batch, i, j], provided the entries of A are
    those of a power of a named matrix (e.g. A itself, A^f, a transposed or conjugated power)."""
    f = T.freeze(A)
    nb = A.dim() - 2

    # indices that coincide hide the orientation: probe with distinct symbols
    def safe(batch, e, i, j):
        c = cur()
        pi, pj = P.var(c.fresh("pi")), P.var(c.fresh("pj"))
        ent = f(tuple(batch) + (pi, pj))
        ts = apply_relations(ent)
        if len(ts) == 1 and not ts[0].b and ts[0].c == 1 and len(ts[0].f) == 1:
            (b, x), = ts[0].f.items()
            if x == ONE and b[0] == "mp" and {b[4], b[5]} == {pi, pj}:
                ij = (i, j) if b[4] == pi else (j, i)
                return X.atom(("mp", b[1], b[2], c.n(b[3] * topoly(e)), ij[0], ij[1], b[6]))
        raise Unsupported("power of a matrix that is not a named matrix: %r" % (ent,))

    return safe


def contract_runner(measure=None):
    def _mat_pwr_accum_runner(A, factors):
        if isinstance(factors, load.Factors):
            n = factors.n
        else:
            n = 1
            for f in factors:
                need(f >= 1, "_mat_pwr_accum_runner: factors")
                n = n * f
        need(A.dim() >= 2 and A.size(-1) == A.size(-2), "_mat_pwr_accum_runner: square matrix")
        need(n >= 2, "_mat_pwr_accum_runner: at least one factor")
        if measure is not None:
            need(n < measure[0], "_mat_pwr_accum_runner: decreasing product")
        pw = mat_power_entry(A)
        sh = A.sh[:-2] + (T.P_(n),) + A.sh[-2:]
        return Tensor(sh, lambda i: pw(i[:-3], i[-3] + 1, i[-2], i[-1]), A._real)

    return _mat_pwr_accum_runner


def contract_mpa(A, n):
    """matrix_power_accumulate for n >= 1."""
    need(A.dim() >= 2 and A.size(-1) == A.size(-2), "matrix_power_accumulate: square matrix")
    need(n >= 1, "matrix_power_accumulate: positive exponent (other exponents not used by callers)")
    pw = mat_power_entry(A)
    sh = A.sh[:-2] + (T.P_(n),) + A.sh[-2:]
    return Tensor(sh, lambda i: pw(i[:-3], i[-3] + 1, i[-2], i[-1]), A._real)


def acc_hint_power(s, xs, first):
    pw = mat_power_entry(first)
    relate(s, lambda i: pw(i[:-3], i[-1] + 1, i[-3], i[-2]), "accumulated products are powers")


BATCHES = {"": (), "B": ("B",), "BC": ("B", "C")}


def bsizes(bk):
    return [size(k) for k in bk]


def ob_runner(bk, real):
    def run():
        m = load.Loader().module("philtorch.mat")
        bs, M = bsizes(bk), size("M")
        n = size("N", 2)
        A = arg("A", tuple(bs) + (M, M), real, kind="sq")
        f = m._mat_pwr_accum_runner
        m._mat_pwr_accum_runner = contract_runner((n,))
        load.ACC_HINT[0] = acc_hint_power
        try:
            facs = load._factorint(n, multiple=True)
            y = f(A, facs)
        finally:
            load.ACC_HINT[0] = None
        ensures(y, tuple(bs) + (n, M, M), lambda i: X.atom(("mp", A.sym.name, tuple(i[:-3]), i[-3] + 1, i[-2], i[-1], False)),
                "entry k is A^(k+1)", real)

    return run


def ob_mpa(bk, real, case):
    def run():
        m = load.Loader().module("philtorch.mat")
        bs, M = bsizes(bk), size("M")
        A = arg("A", tuple(bs) + (M, M), real, kind="sq")
        m._mat_pwr_accum_runner = contract_runner()
        if case == "pos":
            n = size("N", 1)
            y = m.matrix_power_accumulate(A, n)
            ensures(y, tuple(bs) + (n, M, M), lambda i: X.atom(("mp", A.sym.name, tuple(i[:-3]), i[-3] + 1, i[-2], i[-1], False)),
                    "entry k is A^(k+1)", real)
        elif case == "zero":
            y = m.matrix_power_accumulate(A, 0)
            ensures(y, tuple(bs) + (1, M, M), lambda i: X.delta(i[-2], i[-1]), "A^0 is the identity", real)
        else:
            n = size("N", 1)
            inv = sym_tensor("Ainv", A.sh, real, kind="sq")

            def hook(t):
                if t.sym is not A.sym:
                    raise Refuted("inverse of something other than A")
                return inv

            load.INV[0] = hook
            f = m.matrix_power_accumulate

            def rec(A2, n2):
                return contract_mpa(A2, n2)

            m.matrix_power_accumulate = rec
            try:
                y = f(A, -n)
            finally:
                load.INV[0] = None
            ensures(y, tuple(bs) + (n, M, M), lambda i: X.atom(("mp", inv.sym.name, tuple(i[:-3]), i[-3] + 1, i[-2], i[-1], False)),
                    "entry k is (A^-1)^(k+1)", real)

    return run


# ------------------------------------------------------------------ ordered products
def chain_entry(A):
    """Entries of a sequence of matrices that are consecutive factors of a named chain:
    fn(batch, i, j, a, b) = (A_a A_{a+1} ... A_b)[i, j] when entry t is chain(s(t), u(t)) and
    u(t) = s(t+1)."""
    f = T.freeze(A)

    def fn(batch, a, b, i, j):
        c = cur()
        pi, pj, pt = (P.var(c.fresh(v)) for v in ("pi", "pj", "pt"))
        tv = next(iter(pt.vars()))
        c.bound.append((tv, ZERO, c.n(A.sh[-3])))
        try:
            ent = f(tuple(batch) + (pt, pi, pj))
        finally:
            c.bound.pop()
        ts = apply_relations(ent)
        if len(ts) == 1 and not ts[0].b and ts[0].c == 1 and len(ts[0].f) == 1:
            (bb, x), = ts[0].f.items()
            if x == ONE and bb[0] == "ch" and (bb[5], bb[6]) == (pi, pj):
                if any(p.has(tv) for p in bb[2]):
                    raise Unsupported("chain batch depends on the position")
                s = lambda p: bb[3].subst({tv: p})
                u = lambda p: bb[4].subst({tv: p})
                if u(pt) == s(pt + 1):
                    return X.atom(("ch", bb[1], bb[2], c.n(s(topoly(a))), c.n(u(topoly(b))), i, j, bb[7]))
        raise Unsupported("product of matrices that are not consecutive factors of a named chain: %r" % (ent,))

    return fn


def contract_cumdot_runner(measure=None):
    def _mat_cumdot_runner(A, factors):
        need(A.dim() >= 3 and A.size(-1) == A.size(-2), "_mat_cumdot_runner: square matrices")
        if isinstance(factors, load.Factors):
            n = factors.n
        else:
            n = 1
            for f in factors:
                n = n * f
        need(A.size(-3) == n, "_mat_cumdot_runner: product of the factors is the number of matrices")
        need(n >= 2, "_mat_cumdot_runner: at least one factor")
        if measure is not None:
            need(n < measure[0], "_mat_cumdot_runner: decreasing product")
        return contract_cumdot(A)

    return _mat_cumdot_runner


def contract_cumdot(A):
    need(A.dim() >= 3 and A.size(-1) == A.size(-2), "matrices_cumdot: square matrices")
    need(A.size(-3) >= 1, "matrices_cumdot: at least one matrix")
    ce = chain_entry(A)
    return Tensor(A.sh, lambda i: ce(i[:-3], ZERO, i[-3], i[-2], i[-1]), A._real)


def acc_hint_chain(s, xs, first):
    # element t of xs: chain(s + t .. ); accumulated: chain from element 0 to element t
    if isinstance(xs, T.SymSeq):
        probe = xs
    sh = first.sh
    seqt = Tensor(sh[:-2] + (s.shape[-1],) + sh[-2:], lambda i: xs.get(i[-3]).at(tuple(i[:-3]) + (i[-2], i[-1])), first._real)
    ce = chain_entry(seqt)
    relate(s, lambda i: ce(i[:-3], ZERO, i[-1], i[-3], i[-2]), "accumulated products are chains")


def ob_cumdot_runner(bk, real):
    def run():
        m = load.Loader().module("philtorch.mat")
        bs, M = bsizes(bk), size("M")
        n = size("N", 2)
        if CONCRETE[0] is not None:
            facs = load._factorint(n, multiple=True)
            A = arg("A", tuple(bs) + (n, M, M), real, kind="asc")
            y = m._mat_cumdot_runner(A, facs)
        else:
            c = cur()
            facs = load.Factors(n)
            A = arg("A", tuple(bs) + (n, M, M), real, kind="asc")
            f = m._mat_cumdot_runner
            m._mat_cumdot_runner = contract_cumdot_runner((n,))
            load.ACC_HINT[0] = acc_hint_chain
            try:
                y = f(A, facs)
            finally:
                load.ACC_HINT[0] = None
        ensures(y, tuple(bs) + (n, M, M), lambda i: X.atom(("ch", A.sym.name, tuple(i[:-3]), ZERO, i[-3] + 1, i[-2], i[-1], False)),
                "entry k is A_0 A_1 ... A_k", real)

    return run


def ob_cumdot(bk, real):
    def run():
        m = load.Loader().module("philtorch.mat")
        bs, M, n = bsizes(bk), size("M"), size("N", 1)
        A = arg("A", tuple(bs) + (n, M, M), real, kind="asc")
        m._mat_cumdot_runner = contract_cumdot_runner()
        y = m.matrices_cumdot(A)
        ensures(y, tuple(bs) + (n, M, M), lambda i: X.atom(("ch", A.sym.name, tuple(i[:-3]), ZERO, i[-3] + 1, i[-2], i[-1], False)),
                "entry k is A_0 A_1 ... A_k", real)

    return run


# ------------------------------------------------------------------ companion, vandermonde
def companion_entry(a):
    """first row -a, ones below the diagonal, zeros elsewhere"""
    f = T.freeze(a)

    def fn(i):
        c = cur()
        r, k = i[-2], i[-1]
        if c.eq0(r):
            return -f(tuple(i[:-2]) + (k,))
        return const(1) if c.eq0(r - k - 1) else ZEROE

    return fn


def contract_companion(a):
    need(a.dim() >= 1, "companion: at least 1-D")
    return Tensor(a.sh + (a.sh[-1],), companion_entry(a), a._real)


def ob_companion(bk, real):
    def run():
        m = load.Loader().module("philtorch.mat")
        bs, M = bsizes(bk), size("M")
        a = arg("a", tuple(bs) + (M,), real)
        y = m.companion(a)
        ensures(y, tuple(bs) + (M, M), companion_entry(a), "companion matrix", real)

    return run


def ob_charpoly(real):
    """companion(a) applied to (p^(M-1), ..., p, 1): the shift structure, and the first row -a."""

    def run():
        M = size("M")
        a = arg("a", (M,), real)
        p = arg("p", (), real)
        cm = companion_entry(a)
        vec = lambda k: T.int_power(p.at(()), cur().n(T.P_(M)) - 1 - k)

        def got(i):
            return Sum(ZERO, T.P_(M), lambda k: cm((i[0], k)) * vec(k))

        def want(i):
            # p * vec minus, in the first row, the polynomial value p^M + a_1 p^(M-1) + ...
            v = vec(i[0]) * p.at(())
            if cur().eq0(i[0]):
                v = v - T.int_power(p.at(()), T.P_(M)) - Sum(ZERO, T.P_(M), lambda k: a.at((k,)) * vec(k))
            return v

        prove_equal_at((M,), got, want, "A v = p v when p^M + a_1 p^(M-1) + ... + a_M = 0")

    return run


def ob_vandermonde(case, real):
    def run():
        m = load.Loader().module("philtorch.mat")
        M = size("M")
        Bs = size("B")
        p = arg("p", (M,) if case == "1d" else (Bs, 1), real)
        y = m.vandermonde(p)
        if case == "1d":
            ensures(y, (M, M), lambda i: T.int_power(p.at((i[1],)), cur().n(T.P_(M)) - 1 - i[0]), "column k holds the powers of pole k", real)
        else:
            ensures(y, (Bs, 1, 1), lambda i: const(1), "one pole", real)

    return run


for real in (True, False):
    r = "real" if real else "complex"
    for bk in BATCHES:
        b = bk or "unbatched"
        add(["C15", "C01"], "mat._mat_pwr_accum_runner %s %s" % (b, r), "mat.py:_mat_pwr_accum_runner", ob_runner(bk, real))
        for case in ("pos", "zero", "neg"):
            add(["C15", "C01"], "mat.matrix_power_accumulate n:%s %s %s" % (case, b, r), "mat.py:matrix_power_accumulate", ob_mpa(bk, real, case))
        add(["C15", "C02"], "mat._mat_cumdot_runner %s %s" % (b, r), "mat.py:_mat_cumdot_runner", ob_cumdot_runner(bk, real))
        add(["C15", "C02"], "mat.matrices_cumdot %s %s" % (b, r), "mat.py:matrices_cumdot", ob_cumdot(bk, real))
        add(["C15"], "mat.companion %s %s" % (b, r), "mat.py:companion", ob_companion(bk, real))
    add(["C15"], "companion eigenvector lemma %s" % r, "mat.py:companion", ob_charpoly(real))
    add(["C15"], "mat.vandermonde 1-D %s" % r, "mat.py:vandermonde", ob_vandermonde("1d", real))
    add(["C15"], "mat.vandermonde one pole %s" % r, "mat.py:vandermonde", ob_vandermonde("one", real))


def ob_eigenvectors(bk, areal, lreal):
    """One eigenvector (number k0) that does not vanish in its first entry: A(:, 0) = l v - A(:, 1:) v(1:) with v(0) = 1.
    torch.linalg.solve: the only solution of a system whose matrix is invertible (W^H W with independent columns W)."""

    def run():
        try:
            go()
        finally:
            load.SOLVE[0], X.LAZY_SPLIT[0] = None, False

    def go():
        m = load.Loader().module("philtorch.mat")
        bs, n = bsizes(bk), size("n")
        c = cur()
        k0 = T.P_(size("k0", 0))
        requires(c.ge0(T.P_(n) - 1 - k0))
        rest = sym_tensor("A", tuple(bs) + (n, n), areal)
        lam = arg("lam", tuple(bs) + (n,), lreal)
        vec = sym_tensor("v", tuple(bs) + (n, n), areal and lreal)
        v = lambda q, r: toexpr(vec.at(tuple(q) + (r, k0)))
        V = lambda q, r: v(q, r) + X.delta(r, ZERO) * (const(1) - v(q, ZERO))
        L = lambda q, k: lam.at(tuple(q) + (k,))

        def entry(i):
            q, r = i[:-2], i[-2]
            if not cur().eq0(i[-1]):
                return rest.at(i)
            return L(q, k0) * V(q, r) - Sum(ONE, T.P_(n), lambda j: rest.at(q + (r, j)) * V(q, j))

        A = Tensor(tuple(T.P_(b) for b in bs) + (T.P_(n), T.P_(n)), entry, areal)
        A.st.arg = True

        def W(q, k, r, j):
            return A.at(tuple(q) + (r, j)) - L(q, k) * X.delta(r, j)

        lead = tuple(bs) + (n,)

        def solve(G, R, **kw):
            need(not kw, "linalg.solve: options")
            for t, w, what in ((G, tuple(lead) + (n - 1, n - 1), "matrix"), (R, tuple(lead) + (n - 1, 1), "right-hand side")):
                if len(t.sh) != len(w) or not all(c.eq0(p - T.P_(u)) for p, u in zip(t.sh, w)):
                    raise Unsupported("solve: shape of the " + what)
            gram = lambda i: Sum(ZERO, T.P_(n), lambda r: W(i[:-3], i[-3], r, i[-2] + 1).conj() * W(i[:-3], i[-3], r, i[-1] + 1))
            if CONCRETE[0] is None and not FRAME[0] and not X.forall_zero(G.sh, lambda i: G.at(i) - gram(i)):
                raise Unproved("solve: the matrix is not known to be invertible")
            at0 = lambda i: i[:-1] + (k0, i[-1])
            prove_equal_at(tuple(bs) + (n - 1,), lambda i: Sum(ZERO, T.P_(n) - 1, lambda j: G.at(at0(i) + (j,)) * V(i[:-1], j + 1)), lambda i: R.at(at0(i) + (ZERO,)),
                           "the eigenvector solves the system")
            z = sym_tensor("z", tuple(lead) + (n - 1, 1), False)
            return Tensor(tuple(T.P_(u) for u in lead) + (T.P_(n) - 1, ONE), lambda i: V(i[:-3], i[-2] + 1) if cur().eq0(i[-3] - k0) else z.at(i), G._real and R._real)

        seen = []

        def norm(t, ord=2, dim=None, keepdim=False, **kw):
            if kw or ord != 2 or dim not in (-1, -2) or not keepdim or len(t.sh) != len(bs) + 2:
                raise Unsupported("vector_norm")
            ax = (lambda i: i[:-1] + (i[-1], k0)) if dim == -2 else (lambda i: i[:-1] + (k0, i[-1]))
            prove_equal_at(tuple(bs) + (n,), lambda i: t.at(ax(i)), lambda i: V(i[:-1], i[-1]), "the norm is taken of the eigenvector")
            w = sym_tensor("norm", lead, True)
            seen.append(w)
            return Tensor(t.sh[:-1] + (ONE,) if dim == -1 else t.sh[:-2] + (ONE, t.sh[-1]), lambda i: w.at(i[:-1] if dim == -1 else i[:-2] + i[-1:]), True)

        load.SOLVE[0], m.torch.linalg.vector_norm, X.LAZY_SPLIT[0] = solve, norm, True
        r = m.find_eigenvectors(A, lam)
        same_shape(r, tuple(bs) + (n, n), "eigenvectors")
        if not FRAME[0] and len(seen) != 1:
            raise Unsupported("normalised in another way")
        if FRAME[0]:
            return
        prove_equal_at(tuple(bs) + (n,), lambda i: r.at(i + (k0,)), lambda i: V(i[:-1], i[-1]) * T.inverse(seen[0].at(i[:-1] + (k0,))), "column k is the eigenvector of eigenvalue k, normalised")

    return run


for bk in BATCHES:
    for areal, lreal in ((True, False), (False, False), (True, True)):
        add(["C15", "C05"], "mat.find_eigenvectors %s A:%s eigenvalues:%s" % (bk or "unbatched", *("real" if u else "complex" for u in (areal, lreal))),
            "mat.py:find_eigenvectors", ob_eigenvectors(bk, areal, lreal))
