"""Contracts of the derivative rules: backward is the adjoint recursion (and satisfies the pairing identity with
the tangent recursion, for all directions), jvp is the tangent recursion."""
from spec import *
import load
from contracts import ops
from contracts.ops import mentry
from contracts.scalar import bsel

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


class Context:
    """The context object of autograd: what is saved is what is handed back."""

    def __init__(self, needs):
        self.needs_input_grad = needs
        self.saved = self.fwd = None

    def save_for_backward(self, *t):
        self.saved = t

    def save_for_forward(self, *t):
        self.fwd = t

    @property
    def saved_tensors(self):
        return self.saved if self.mode == "backward" else self.fwd


def scalar_sizes(ak):
    B, N = size("B"), size("N")
    if ak == 1:
        requires(B > 1)
    return B, N


def rec(name, sh, rule, init, real):
    s = new_rec(name, sh, 1, None, None, real)
    s.rule = lambda i: rule(s, i)
    s.init = init
    return s


# ------------------------------------------------------------------ scalar, time-invariant
def scalar_setup(ak, real):
    B, N = scalar_sizes(ak)
    a = arg("a", () if ak == 0 else (B,) if ak == "B" else (1,), real)
    init, x = arg("init", (B,), real), arg("x", (B, N), real)
    A = bsel(a)
    fi, fx = T.freeze(init), T.freeze(x)
    sh = (T.P_(B), T.P_(N))
    h = rec("h", sh, lambda s, i: A(i[0]) * app(s, (i[0], i[1] - 1)) + fx(i), lambda i: fi((i[0],)), real)
    return B, N, a, init, x, A, h, sh


def functions(kind):
    """(backward, jvp, setup) of the rule under contract, from the real modules."""
    def get():
        ops.install()
        ld = load.Loader(ext=True)
        if kind[0] == "class":
            m = ld.module("philtorch." + kind[1])
            c = getattr(m, kind[2])
            return c.backward, c.jvp, c.setup_context
        load.AUTOGRAD.clear()
        ld.module("philtorch")
        b, s = load.AUTOGRAD["philtorch::" + kind[1]]
        return b, None, s

    return get


def run_setup(setup, needs, inputs, out, mode):
    ctx = Context(needs)
    ctx.mode = mode
    setup(ctx, inputs, out)
    if ctx.saved_tensors is None:
        raise Refuted("nothing is saved for the %s rule" % mode)
    return ctx


def ob_scalar_backward(kind, ak, real, needs):
    def run():
        back, jvp, setup = functions(kind)()
        B, N, a, init, x, A, h, sh = scalar_setup(ak, real)
        g = arg("g", (B, N), real)
        NP = T.P_(N)
        fg = T.freeze(g)
        ctx = run_setup(setup, needs, [a, init, x], rec_tensor(h), "backward")
        # adjoint: lam(t) = g(t) + conj(a) lam(t + 1), stored from the end
        mu = rec("lam", sh, lambda s, i: fg((i[0], NP - 1 - i[1])) + A(i[0]).conj() * app(s, (i[0], i[1] - 1)), lambda i: ZEROE, real)
        lam = lambda b, t: app(mu, (b, NP - 1 - t))
        ga, gi, gx = back(ctx, g)
        for c in recs_named("E"):
            # the rule runs the operator on all but the last incoming gradient
            relate(c, lambda i: app(mu, (i[0], i[1] + 1)), "the operator runs the adjoint recursion")
        H_ = lambda b, t: app(h, (b, t))
        check_needed((ga, gi, gx), needs)
        if needs[2]:
            ensures(gx, (B, N), lambda i: lam(*i), "gradient of the input: the adjoint sequence", real)
        if needs[1]:
            ensures(gi, (B,), lambda i: A(i[0]).conj() * lam(i[0], ZERO), "gradient of the initial value", real)
        if needs[0]:
            h.unfold_ok = mu.unfold_ok = False  # matching of indices alone
            # lam(N - 1) = g(N - 1) by definition
            per = lambda b: H_(b, NP - 2).conj() * fg((b, NP - 1)) + Sum(ZERO, NP - 1, lambda t: H_(b, t - 1).conj() * lam(b, t))
            if ak == 0:
                ensures(ga, (), lambda i: Sum(ZERO, T.P_(B), per), "gradient of the coefficient", real)
            else:
                # (1,): autograd sums the per-batch gradient of an expanded operand
                ensures(ga, (B,), lambda i: per(i[0]), "gradient of the coefficient", real)

    return run


def check_needed(gs, needs):
    for g, n in zip(gs, needs):
        if n and g is None:
            raise Refuted("a needed gradient is missing")


def ob_scalar_pairing(ak, real):
    """Lemma: for all directions, <g, dh> = <ga, da> + <gi, dinit> + <gx, dx> with the gradients above."""
    def run():
        B, N, a, init, x, A, h, sh = scalar_setup(ak, real)
        g = arg("g", (B, N), real)
        da = arg("da", a.shape if ak else (), real)
        di, dx = arg("dinit", (B,), real), arg("dx", (B, N), real)
        fg, fdi, fdx, DA = T.freeze(g), T.freeze(di), T.freeze(dx), bsel(da)
        NP = T.P_(N)
        u = lambda b, t: DA(b) * app(h, (b, t - 1)) + fdx((b, t))
        D = rec("dh", sh, lambda s, i: A(i[0]) * app(s, (i[0], i[1] - 1)) + u(*i), lambda i: fdi((i[0],)), real)
        mu = rec("lam", sh, lambda s, i: fg((i[0], NP - 1 - i[1])) + A(i[0]).conj() * app(s, (i[0], i[1] - 1)), lambda i: ZEROE, real)
        lam = lambda b, t: app(mu, (b, NP - 1 - t)) if cur().ge0(NP - 1 - t) else ZEROE
        P = rec("pair", sh, lambda s, i: app(s, (i[0], i[1] - 1)) + fg(i).conj() * app(D, i), lambda i: ZEROE, real)
        Q = rec("opnd", sh, lambda s, i: app(s, (i[0], i[1] - 1)) + lam(*i).conj() * u(*i), lambda i: ZEROE, real)
        cand = lambda i: app(Q, i) + (A(i[0]).conj() * lam(i[0], ZERO)).conj() * fdi((i[0],)) - (A(i[0]).conj() * lam(i[0], i[1] + 1)).conj() * app(D, i)
        relate(P, cand, "the pairing telescopes")
        prove_equal_at((B,), lambda i: app(P, (i[0], NP - 1)), lambda i: app(Q, (i[0], NP - 1)) + (A(i[0]).conj() * lam(i[0], ZERO)).conj() * fdi((i[0],)), "the rule is the adjoint of the tangent, for all directions")

    return run


def ob_scalar_jvp(kind, ak, real, given):
    def run():
        back, jvp, setup = functions(kind)()
        B, N, a, init, x, A, h, sh = scalar_setup(ak, real)
        ctx = run_setup(setup, (True,) * 3, [a, init, x], rec_tensor(h), "forward")
        da = arg("da", a.shape, real) if given[0] else None
        di = arg("dinit", (B,), real) if given[1] else None
        dx = arg("dx", (B, N), real) if given[2] else None
        r = jvp(ctx, da, di, dx)
        fdi = T.freeze(di) if di is not None else None
        fdx = T.freeze(dx) if dx is not None else None
        DA = bsel(da) if da is not None else None

        def rule(s, i):
            v = A(i[0]) * app(s, (i[0], i[1] - 1))
            if DA:
                v = v + DA(i[0]) * app(h, (i[0], i[1] - 1))
            return v + fdx(i) if fdx else v

        D = rec("dh", sh, rule, lambda i: fdi((i[0],)) if fdi else ZEROE, real)
        for c in recs_named("E"):
            relate(c, lambda i: app(D, i), "the operator runs the tangent recursion")
        ensures(r, (B, N), lambda i: app(D, i), "dh[t] = a dh[t-1] + da h[t-1] + dx[t]", real)

    return run


# ------------------------------------------------------------------ matrix
def matrix_setup(varying, ab, two, real):
    B, N = size("B"), size("N")
    M = 2 if two else size("M")
    if not two:
        requires(M != 2)
    lead = (("B",) if ab else ()) + (("N",) if varying else ())
    A = arg("A", ((B,) if ab else ()) + ((N,) if varying else ()) + (M, M), real)
    zi, x = arg("zi", (B, M), real), arg("x", (B, N, M), real)
    E = mentry(A, "".join(lead))
    fz, fx = T.freeze(zi), T.freeze(x)
    MP = T.P_(M)
    sh = (T.P_(B), T.P_(N), MP)
    h = rec("h", sh, lambda s, i: Sum(ZERO, MP, lambda j: E(i[0], i[1], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fx(i), lambda i: fz((i[0], i[2])), real)
    return B, N, M, A, zi, x, E, h, sh


def adjoint(E, fg, sh, NP, MP, real):
    """lam(t) = g(t) + A(t + 1)^H lam(t + 1), stored from the end."""
    def rule(s, i):
        b, t, k = i[0], NP - 1 - i[1], i[2]
        v = fg((b, t, k))
        if cur().ge0(NP - 2 - t):
            v = v + Sum(ZERO, MP, lambda j: E(b, t + 1, j, k).conj() * app(s, (b, i[1] - 1, j)))
        return v

    return rec("lam", sh, rule, lambda i: ZEROE, real)


def ob_matrix_backward(kind, varying, ab, two, real, needs):
    def run():
        back, jvp, setup = functions(kind)()
        B, N, M, A, zi, x, E, h, sh = matrix_setup(varying, ab, two, real)
        g = arg("g", (B, N, M), real)
        NP, MP, BP = T.P_(N), T.P_(M), T.P_(B)
        fg = T.freeze(g)
        ctx = run_setup(setup, needs, [A, zi, x], rec_tensor(h), "backward")
        mu = adjoint(E, fg, sh, NP, MP, real)
        lam = lambda b, t, i: app(mu, (b, NP - 1 - t, i))
        gA, gz, gx = back(ctx, g)
        for c in recs_named("E"):
            relate(c, lambda i: app(mu, i), "the operator runs the adjoint recursion")
        H_ = lambda b, t, i: app(h, (b, t, i))
        check_needed((gA, gz, gx), needs)
        if needs[2]:
            ensures(gx, (B, N, M), lambda i: lam(*i), "gradient of the input: the adjoint sequence", real)
        if needs[1]:
            ensures(gz, (B, M), lambda i: Sum(ZERO, MP, lambda j: E(i[0], ZERO, j, i[1]).conj() * lam(i[0], ZERO, j)), "gradient of the initial state", real)
        if needs[0]:
            outer = lambda b, t, i, j: lam(b, t, i) * H_(b, t - 1, j).conj()
            if varying and ab:
                want = lambda i: outer(*i)
            elif varying:
                want = lambda i: Sum(ZERO, BP, lambda b: outer(b, *i))
            elif ab:
                want = lambda i: Sum(ZERO, NP, lambda t: outer(i[0], t, i[1], i[2]))
            else:
                want = lambda i: Sum(ZERO, BP, lambda b: Sum(ZERO, NP, lambda t: outer(b, t, i[0], i[1])))
            ensures(gA, A.shape, want, "gradient of the state matrix", real)

    return run


def ob_matrix_pairing(varying, ab, real):
    def run():
        B, N, M, A, zi, x, E, h, sh = matrix_setup(varying, ab, False, real)
        g = arg("g", (B, N, M), real)
        dA = arg("dA", A.shape, real)
        dz, dx = arg("dzi", (B, M), real), arg("dx", (B, N, M), real)
        lead = ("B" if ab else "") + ("N" if varying else "")
        fg, fdz, fdx, DE = T.freeze(g), T.freeze(dz), T.freeze(dx), mentry(dA, lead)
        NP, MP = T.P_(N), T.P_(M)
        S_ = lambda f: Sum(ZERO, MP, f)
        u = lambda b, t, i: S_(lambda j: DE(b, t, i, j) * app(h, (b, t - 1, j))) + fdx((b, t, i))
        D = rec("dh", sh, lambda s, i: S_(lambda j: E(i[0], i[1], i[2], j) * app(s, (i[0], i[1] - 1, j))) + u(*i), lambda i: fdz((i[0], i[2])), real)
        mu = adjoint(E, fg, sh, NP, MP, real)
        lam = lambda b, t, i: app(mu, (b, NP - 1 - t, i)) if cur().ge0(NP - 1 - t) else ZEROE
        P = rec("pair", sh[:2], lambda s, i: app(s, (i[0], i[1] - 1)) + S_(lambda k: fg((i[0], i[1], k)).conj() * app(D, (i[0], i[1], k))), lambda i: ZEROE, real)
        Q = rec("opnd", sh[:2], lambda s, i: app(s, (i[0], i[1] - 1)) + S_(lambda k: lam(i[0], i[1], k).conj() * u(i[0], i[1], k)), lambda i: ZEROE, real)

        def carry(b, t, d):
            """<A(t)^H lam(t), d>"""
            if not cur().ge0(NP - 1 - t):
                return ZEROE
            return S_(lambda k: S_(lambda j: E(b, t, j, k) * lam(b, t, j).conj()) * d(k))

        first = lambda b: carry(b, ZERO, lambda k: fdz((b, k)))
        relate(P, lambda i: app(Q, i) + first(i[0]) - carry(i[0], i[1] + 1, lambda k: app(D, (i[0], i[1], k))), "the pairing telescopes")
        prove_equal_at((B,), lambda i: app(P, (i[0], NP - 1)), lambda i: app(Q, (i[0], NP - 1)) + first(i[0]), "the rule is the adjoint of the tangent, for all directions")

    return run


def ob_matrix_jvp(kind, varying, ab, two, real, given):
    def run():
        back, jvp, setup = functions(kind)()
        B, N, M, A, zi, x, E, h, sh = matrix_setup(varying, ab, two, real)
        ctx = run_setup(setup, (True,) * 3, [A, zi, x], rec_tensor(h), "forward")
        dA = arg("dA", A.shape, real) if given[0] else None
        dz = arg("dzi", (B, M), real) if given[1] else None
        dx = arg("dx", (B, N, M), real) if given[2] else None
        r = jvp(ctx, dA, dz, dx)
        lead = ("B" if ab else "") + ("N" if varying else "")
        fdz = T.freeze(dz) if dz is not None else None
        fdx = T.freeze(dx) if dx is not None else None
        DE = mentry(dA, lead) if dA is not None else None
        MP = T.P_(M)

        def rule(s, i):
            v = Sum(ZERO, MP, lambda j: E(i[0], i[1], i[2], j) * app(s, (i[0], i[1] - 1, j)))
            if DE:
                v = v + Sum(ZERO, MP, lambda j: DE(i[0], i[1], i[2], j) * app(h, (i[0], i[1] - 1, j)))
            return v + fdx(i) if fdx else v

        D = rec("dh", sh, rule, lambda i: fdz((i[0], i[2])) if fdz else ZEROE, real)
        for c in recs_named("E"):
            relate(c, lambda i: app(D, i), "the operator runs the tangent recursion")
        ensures(r, (B, N, M), lambda i: app(D, i), "dh[t] = A dh[t-1] + dA h[t-1] + dx[t]", real)

    return run


ALL = (True, True, True)
NEEDS = (ALL, (True, False, False), (False, True, False), (False, False, True))
GIVEN = [(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)]
for real in (True, False):
    r = "real" if real else "complex"
    for ak in (0, 1, "B"):
        for who, kind, fn in (("lti/recur.LTIRecurrence", ("class", "lti.recur", "LTIRecurrence"), "lti/recur.py:LTIRecurrence"),
                              ("lti_recur registered", ("reg", "lti_recur"), "__init__.py:_lti_recur_backward")):
            for needs in NEEDS:
                add(["C11"], "%s.backward a:%s needs %s %s" % (who, ak, "".join("aix"[k] for k in range(3) if needs[k]), r), fn, ob_scalar_backward(kind, ak, real, needs))
            if kind[0] == "class":
                for given in GIVEN:
                    add(["C12"], "%s.jvp a:%s given %s %s" % (who, ak, "".join("aix"[k] for k in range(3) if given[k]), r), fn, ob_scalar_jvp(kind, ak, real, given))
        add(["C11"], "scalar adjoint pairing a:%s %s" % (ak, r), "lemma", ob_scalar_pairing(ak, real))
    for varying in (False, True):
        for ab in (False, True):
            for two in (False, True):
                cls = ("class", "lpv.ssm", "MatrixRecurrence") if varying else ("class", "lti.ssm", "LTIMatrixRecurrence")
                file = "lpv/ssm.py:MatrixRecurrence" if varying else "lti/ssm.py:LTIMatrixRecurrence"
                nm = ("lti_" if not varying else "") + "recur"
                for who, kind, fn in ((cls[2], cls, file), (nm + "N registered", ("reg", nm + "N"), "__init__.py:_%sN_backward" % nm), (nm + "2 registered", ("reg", nm + "2"), "__init__.py:_%sN_backward" % nm)):
                    if who.endswith("2 registered") and not two:
                        continue
                    for needs in NEEDS:
                        add(["C11"], "%s.backward A:%s M%s needs %s %s" % (who, "batched" if ab else "shared", "=2" if two else "!=2", "".join("Aix"[k] for k in range(3) if needs[k]), r), fn, ob_matrix_backward(kind, varying, ab, two, real, needs))
                    if kind[0] == "class":
                        for given in GIVEN:
                            add(["C12"], "%s.jvp A:%s M%s given %s %s" % (who, "batched" if ab else "shared", "=2" if two else "!=2", "".join("Aix"[k] for k in range(3) if given[k]), r), fn, ob_matrix_jvp(kind, varying, ab, two, real, given))
            add(["C11"], "matrix adjoint pairing %s A:%s %s" % ("varying" if varying else "invariant", "batched" if ab else "shared", r), "lemma", ob_matrix_pairing(varying, ab, real))
