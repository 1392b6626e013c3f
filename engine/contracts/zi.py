"""Contracts of lfilter_zi and lfiltic (C13)."""
from spec import *
import load, numev
from contracts.scalar import need
from contracts.mat import contract_companion
from contracts.filt import coefs, bread

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


class Solve:
    """torch.linalg.solve(A, b): a vector z with A z = b (assumed; A is invertible)."""

    def __init__(self):
        self.calls = []

    def __call__(self, A, Bm, **k):
        c = cur()
        need(not k, "linalg.solve: options")
        need(A.dim() >= 2 and c.eq0(A.sh[-1] - A.sh[-2]), "linalg.solve: square")
        vec = Bm.dim() == 1 or (A.dim() - 1 == Bm.dim() and all(c.eq0(p - q) for p, q in zip(A.sh[:-1], Bm.sh)))
        if not vec:
            if Bm.dim() < 2 or not c.eq0(Bm.sh[-2] - A.sh[-1]):
                raise T.TorchError("linalg.solve: sizes")
            raise Unsupported("linalg.solve with a matrix right-hand side")
        if not c.eq0(Bm.sh[-1] - A.sh[-1]):
            raise T.TorchError("linalg.solve: sizes")
        lead = A.sh[:-2]
        n = A.sh[-1]
        z = T.new_sym("Z", lead + (n,), A._real and Bm._real)
        fa, fb = T.freeze(A), T.freeze(Bm)
        rhs = lambda i: fb(tuple(i) if Bm.dim() == len(lead) + 1 else (i[-1],))

        def model(env, idx):
            k = env.poly(c.n(n), {})
            q = tuple(P.const(v) for v in idx[:-1])
            m = [[env.terms(toexpr(fa(q + (P.const(i), P.const(j)))).t, {}) for j in range(k)] for i in range(k)]
            inv = numev.inverse(m)
            r = [env.terms(toexpr(rhs(q + (P.const(i),))).t, {}) for i in range(k)]
            return sum((inv[idx[-1]][j] * r[j] for j in range(k)), numev.G(0))

        c.syms[("model", z.name)] = model
        row = lambda i: Sum(ZERO, n, lambda j: fa(tuple(i) + (j,)) * app(z, tuple(i[:-1]) + (j,))) - rhs(i)
        self.calls.append((z, row))
        return T.Tensor(lead + (n,), lambda i: app(z, tuple(i)), z.real, sym=z)


def from_rows(sh, goal, solve, what):
    """goal(i) == 0 follows from the i-th equation of the linear system."""
    ENSURES[0] += 1
    if FRAME[0]:
        return
    sh = tuple(T.P_(s) for s in sh)
    if CONCRETE[0] is not None:
        return concrete_check(sh, goal, what)
    for z, row in solve.calls:
        for sign in (1, -1):
            if X.forall_zero(sh, lambda i: toexpr(goal(i)) - row(i) * sign):
                return
    lf = X.LAST_FAIL[0]
    raise Unproved(what + (" residual: %s" % str(lf[1][:3])[:400] if lf else ""))


def orders(rel):
    """Numbers of coefficients K, Ma and the common order M."""
    Ma = size("Ma")
    if rel == "=":
        return Ma + 1, Ma, Ma
    if rel == "<":
        K = size("K")
        requires(K < Ma + 1)
        return K, Ma, Ma
    M = size("M")
    requires(Ma < M)
    return M + 1, Ma, M


def ob_zi(transpose, bk, ak, rel):
    def run():
        m = load.Loader().module("philtorch.lti.filtering")
        m.companion = contract_companion
        sv = Solve()
        load.SOLVE[0] = sv
        try:
            B = size("B") if "B" in (bk, ak) else 1
            K, Ma, M = orders(rel)
            a = arg("a", ((B,) if ak == "B" else ()) + (Ma,))
            b = None if bk is None else arg("b", ((B,) if bk == "B" else ()) + (K,))
            zi = m.lfilter_zi(a, b, transpose=transpose)
        finally:
            load.SOLVE[0] = None
        if bk is None:
            M = Ma
        MP = T.P_(M)
        bt = ak == "B" or (bk == "B" and transpose)
        sh = ((B,) if bt else ()) + (M,)
        ENSURES[0] += 1
        if not FRAME[0]:
            same_shape(zi, sh, "steady state")
        z = T.freeze(zi)
        zq = (lambda q, k: z((q, k))) if bt else (lambda q, k: z((k,)))
        qk = (lambda i: (i[0], i[1])) if bt else (lambda i: (ZERO, i[0]))
        if b is None:
            gb = None
            ga = bread(a)(1)
            A_ = lambda q, k: ga(q, k)
        else:
            B_, A_ = coefs(b, a, len(b.sh), len(a.sh), K, Ma, M)
        if transpose:
            # zi_k = b_(k+1) - a_k (b_0 + zi_0) + zi_(k+1): the update of the delay line under a unit input
            def goal(i):
                q, k = qk(i)
                y = B_(q, ZERO) + zq(q, ZERO)
                e = zq(q, k) - B_(q, k + 1) + A_(q, k) * y
                if cur().ge0(MP - 2 - k):
                    e = e - zq(q, k + 1)
                return e

            from_rows(sh, goal, sv, "the delay line is a fixed point of its update under a unit input")
        else:
            # w = 1 - sum a_k w_k, shifted into the delay line: zi_0 = w, zi_k = zi_(k-1)
            def goal(i):
                q, k = qk(i)
                if cur().eq0(k):
                    return zq(q, ZERO) + Sum(ZERO, MP, lambda j: A_(q, j) * zq(q, j)) - 1
                return zq(q, k) - zq(q, k - 1)

            from_rows(sh, goal, sv, "the delay line is at rest under a unit input")

    return run


def ob_constant(form):
    """From a fixed point the response to a constant input is constant from the first sample."""
    def run():
        N, M = size("N"), size("M")
        NP, MP = T.P_(N), T.P_(M)
        z, a, b0, u = arg("z", (M,)), arg("a", (M,)), arg("b0", ()), arg("u", ())
        fz, fa, f0, fu = T.freeze(z), T.freeze(a), b0.at(()), u.at(())
        s = new_rec("S", (NP, MP), 0, None, None, True)
        if form == "tdf2":
            # the numerator that makes z a fixed point
            def bk(k):
                e = fz((k,)) + fa((k,)) * (f0 + fz((ZERO,)))
                return e - fz((k + 1,)) if cur().ge0(MP - 2 - k) else e

            y = lambda t: f0 * fu + app(s, (t - 1, ZERO))

            def rule(i):
                t, k = i
                e = bk(k) * fu - fa((k,)) * y(t)
                return e + app(s, (t - 1, k + 1)) if cur().ge0(MP - 2 - k) else e

            s.rule = rule
            s.init = lambda i: fu * fz((i[1],))
            relate(s, lambda i: fu * fz((i[1],)), "the delay line does not move")
            prove_equal_at((N,), lambda i: y(i[0]), lambda i: fu * (f0 + fz((ZERO,))), "the output is constant")
        else:
            # w[t] = u - sum a_k w[t-1-k]; at rest every entry is u r with r (1 + sum a) = 1
            r = arg("r", ())
            fr = r.at(())
            w = new_rec("W", (NP,), 0, None, None, True, window=MP)
            a2 = lambda k: fa((k,))
            # u is written through the fixed point: u = u r (1 + sum a)
            uu = fu * fr * (1 + Sum(ZERO, MP, a2))
            w.rule = lambda i: uu - Sum(ZERO, MP, lambda k: a2(k) * app(w, (i[0] - 1 - k,)))
            w.init = lambda i: fu * fr
            relate(w, lambda i: fu * fr, "the delay line does not move")
            prove_equal_at((N,), lambda i: app(w, i), lambda i: fu * fr, "every output is the same combination of equal entries")

    return run


def ob_ic(bk, ak, yk, xk, rel):
    def run():
        m = load.Loader().module("philtorch.lti.filtering")
        B = size("B") if "B" in (bk, ak, yk, xk) else 1
        K, Ma, M = orders(rel)
        a = arg("a", ((B,) if ak == "B" else ()) + (Ma,))
        b = arg("b", ((B,) if bk == "B" else ()) + (K,))
        y = arg("y", ((B,) if yk == "B" else ()) + (Ma,))
        x = None if xk is None else arg("x", ((B,) if xk == "B" else ()) + (K - 1,))
        if xk == "B" and "B" not in (bk, ak, yk):
            requires(K > 1)  # an empty past input of another shape than the rest is not used
        zi = m.lfiltic(b, a, y, x)
        MP = T.P_(M)
        bt = "B" in (bk, ak, yk, xk)
        B_, A_ = coefs(b, a, len(b.sh), len(a.sh), K, Ma, M)
        fy = bread(y)(1)
        fx = None if x is None else bread(x)(1)

        def past(f, q, j, n):
            return f(q, j) if f is not None and cur().ge0(cur().n(T.P_(n)) - 1 - j) else ZEROE

        def want(i):
            q, k = (i[0], i[1]) if bt else (ZERO, i[0])
            # sum over the histories, most recent first
            return Sum(k, MP, lambda j: B_(q, j + 1) * past(fx, q, j - k, K - 1) - A_(q, j) * past(fy, q, j - k, Ma))

        ensures(zi, ((B,) if bt else ()) + (M,), want, "delay line after the given past", True)

    return run


def ob_history():
    """The transposed second-form delay line after M samples, from any start at least M samples back: the sum lfiltic computes."""
    def run():
        N, M = size("N"), size("M")
        NP, MP = T.P_(N), T.P_(M)
        b, a, x, z0 = arg("b", (M + 1,)), arg("a", (M,)), arg("x", (N,)), arg("z", (M,))
        fb, fa, fx, fz = T.freeze(b), T.freeze(a), T.freeze(x), T.freeze(z0)
        s = new_rec("S", (NP, MP), 0, None, None, True)
        y = lambda t: fb((ZERO,)) * fx((t,)) + app(s, (t - 1, ZERO))

        def rule(i):
            t, k = i
            e = fb((k + 1,)) * fx((t,)) - fa((k,)) * y(t)
            return e + app(s, (t - 1, k + 1)) if cur().ge0(MP - 2 - k) else e

        s.rule = rule
        s.init = lambda i: fz((i[1],))

        # unrolled n steps back: S[t, k] = sum_{j<n} (b_(k+j+1) x[t-j] - a_(k+j) y[t-j]) + S[t-n, k+n]; the step of the induction over n
        def part(t, k, n):
            return Sum(ZERO, n, lambda j: fb((k + j + 1,)) * fx((t - j,)) - fa((k + j,)) * y(t - j))

        c = cur()
        k = c.newvar("k", 0)
        t = c.newvar("t", 0)
        n = c.newvar("n", 0)
        requires(c.ge0(MP - 1 - k - n) and c.ge0(NP - 1 - t) and c.ge0(t - n) and c.ge0(NP - 1))
        rest = lambda n_: app(s, (t - n_, k + n_)) if cur().ge0(MP - 1 - k - n_) else ZEROE
        # one more step back changes nothing
        hint(X.prove_zero(toexpr(part(t, k, n) + rest(n) - part(t, k, n + 1) - rest(n + 1))) is True, "one step further back")

    return run


for tr in (True, False):
    for rel in "=<>":
        for ak in "1B":
            for bk in ("1", "B") if tr else (None, "1"):
                if bk is None and rel != "=":
                    continue
                add(["C13"], "lti/filtering.lfilter_zi %s order b%sa b:%s a:%s" % ("tdf2" if tr else "df2", rel, bk, ak), "lti/filtering.py:lfilter_zi", ob_zi(tr, bk, ak, rel))
for form in ("tdf2", "df2"):
    add(["C13"], "constant response from the steady state %s" % form, "lemma", ob_constant(form))
for rel in "=<>":
    for bk in "1B":
        for ak in "1B":
            for yk in "1B":
                for xk in (None, "1", "B"):
                    add(["C13"], "lti/filtering.lfiltic order b%sa b:%s a:%s y:%s x:%s" % (rel, bk, ak, yk, xk), "lti/filtering.py:lfiltic", ob_ic(bk, ak, yk, xk, rel))
add(["C13"], "delay line from the past", "lemma", ob_history())
