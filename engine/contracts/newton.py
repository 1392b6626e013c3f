"""Contract of newton_solve (C22): the samples already visited equal sequential evaluation; affine functions after one iteration."""
from spec import *
import sys
import load
import numev
from contracts.scalar import need
from contracts.lpvssm import contract_ext, contract_rec, H_var, select

OBLIGATIONS = []


def add(name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=["C22"], name=name, function=function, fn=fn, **k))


def same(x, y, what):
    """x and y provably equal"""
    if len(x.sh) != len(y.sh) or not all(cur().eq0(p - q) for p, q in zip(x.sh, y.sh)):
        return False
    return X.forall_zero(tuple(T.P_(s) for s in x.sh), lambda i: x.at(i) - y.at(i))


def need_dims(A, zi, u):
    contract_ext(A, zi, u)
    return H_var(A, zi, u, "delta")


class Invariant:
    """range(max_iter) with the loop invariant: before iteration k the guess y holds samples k-1.. (the first one exact),
    and the samples 0..k-1 have been collected. The loop is entered once, at an arbitrary k, in an arbitrary such state."""

    def __init__(self, B, L, D, S, init, exact, k):
        self.B, self.L, self.D, self.S, self.init, self.exact, self.k = B, L, D, S, init, exact, k

    def seq(self, b, t, d):
        return self.S(b, t, d) if cur().ge0(t) else self.init((b, d))

    def state(self):
        f = sys._getframe(2).f_locals
        y, done = f.get("y"), f.get("computed")
        if not isinstance(y, T.Tensor) or not isinstance(done, list):
            raise Unsupported("the loop keeps its state in other variables")
        return y, done

    def check(self, y, done, k, exact):
        kp = T.P_(k)
        if len(y.sh) != 3 or not cur().eq0(y.sh[1] - (T.P_(self.L) - kp + 1)):
            raise Unproved("loop invariant: length of the guess")
        if FRAME[0]:
            return
        n = y.sh[1] if exact else T.ONE
        if not X.forall_zero((T.P_(self.B), cur().n(n), T.P_(self.D)), lambda i: y.at(i) - toexpr(self.seq(i[0], kp - 1 + i[1], i[2]))):
            raise Unproved("loop invariant: known samples of the guess")
        if len(done) == 0:
            if not cur().eq0(kp):
                raise Unproved("loop invariant: collected samples")
            return
        c = T.cat(done, dim=1)
        if len(c.sh) != 3 or not cur().eq0(c.sh[1] - kp):
            raise Unproved("loop invariant: number of collected samples")
        if not X.forall_zero(c.sh, lambda i: c.at(i) - toexpr(self.S(*i))):
            raise Unproved("loop invariant: collected samples")

    def __call__(self, *a):
        return self.steps()

    def steps(self):
        y, done = self.state()
        self.check(y, done, 0, False)
        k = self.k
        kp = T.P_(k)
        if not cur().eq0(kp):
            BP, LP, DP = T.P_(self.B), T.P_(self.L), T.P_(self.D)
            G = T.new_sym("guess", (BP, LP - kp + 1, DP), True)
            new = T.Tensor((BP, LP - kp + 1, DP), lambda i: toexpr(self.seq(i[0], kp - 1 + i[1], i[2])) if self.exact or cur().eq0(i[1]) else app(G, i), True)
            y.__dict__.clear()
            y.__dict__.update(new.__dict__)
            done[:] = [T.Tensor((BP, kp, DP), lambda i: toexpr(self.S(*i)), True)]
        yield k
        y, done = self.state()
        self.check(y, done, T.P_(k) + 1, self.exact)


def ob(affine, jac, ext, iters, again=False):
    def run():
        m = load.Loader().module("philtorch.prototype.nl")
        B, D, Nf = size("B"), size("D"), size("Nf")
        L = size("L", 2)
        BP, LP, DP = T.P_(B), T.P_(L), T.P_(D)
        x, y0, init = arg("x", (B, L, Nf)), arg("y0", (B, L, D)), arg("init", (B, D))
        fx, finit = T.freeze(x), T.freeze(init)
        calls = []

        def corrected(f):
            """The recursion, with what it computes for an affine function: the distance to the exact sequence."""
            def g(A, zi, u, **kw):
                r = f(A, zi, u, **kw)
                calls.append(1)
                if affine:
                    off = cur().n(LP - T.P_(u.size(1)))
                    c = recs_named("delta")[-1]
                    if len(calls) == 1 and iters is not None:
                        fy0 = T.freeze(y0)
                        relate(c, lambda i: S(i[0], i[1] + off, i[2]) - toexpr(fy0((i[0], i[1] + off, i[2]))), "correction of the first guess")
                    else:
                        relate(c, lambda i: ZEROE, "correction of the exact sequence")
                return r

            return g

        m._ext_ss_recur = corrected(lambda A, zi, u, **k: select(need_dims(A, zi, u), None))
        m.state_space_recursion = corrected(contract_rec("delta"))
        m.extension_backend_indicator = lambda x, M: ext
        if affine:
            A, g = arg("A", (B, L, D, D)), arg("g", (B, L, D))
            fA, fg = T.freeze(A), T.freeze(g)
            s = new_rec("s", (BP, LP, DP), 1, None, None, True)
            s.rule = lambda i: toexpr(fg(i)) + Sum(ZERO, DP, lambda e: toexpr(fA((i[0], i[1], i[2], e))) * app(s, (i[0], i[1] - 1, e)))
            s.init = lambda i: toexpr(finit((i[0], i[2])))
            S = lambda b, t, d: app(s, (b, t, d))
        else:
            s = T.new_sym("s", (BP, LP, DP), True)
            S = lambda b, t, d: app(s, (b, t, d))

        cache, last = [], []

        def opaque_row(kind, sh, ys, zs):
            """(concrete sizes only) some value of the function or its derivative at (ys, zs), the same for the same arguments"""
            for k, y_, z_, v in cache:
                if k == kind and len(y_) == len(ys) and not any(numev.nonzero((p - q).t) is not False for p, q in zip(y_ + z_, ys + zs)):
                    return v
            v = T.new_sym(kind, sh, True)
            cache.append((kind, ys, zs, v))
            return v

        def rows(y, z, deriv):
            """(concrete sizes only) the value of the function, or its derivative, row by row"""
            if len(y.sh) != 3 or len(z.sh) != 3 or not cur().eq0(y.sh[1] - z.sh[1]) or not cur().eq0(y.sh[0] - z.sh[0]) or not cur().eq0(y.sh[2] - DP) or not cur().eq0(z.sh[2] - T.P_(Nf)):
                raise T.TorchError("arguments of the function: %r and %r" % (y.sh, z.sh))
            val = lambda p: cur().n(T.P_(p)).cval()
            n0, b0, d0, f0, l0 = val(y.sh[1]), val(y.sh[0]), val(DP), val(T.P_(Nf)), val(LP)
            c_ = P.const
            out = {}
            for b in range(b0):
                for i in range(n0):
                    ys = [toexpr(y.at((c_(b), c_(i), c_(d)))) for d in range(d0)]
                    zs = [toexpr(z.at((c_(b), c_(i), c_(e)))) for e in range(f0)]
                    t = next((t for t in range(l0) if all(numev.nonzero((zs[e] - toexpr(fx((c_(b), c_(t), c_(e))))).t) is False for e in range(f0))), None)
                    if t is None or not affine:
                        known = t is not None and not deriv and all(
                            numev.nonzero((ys[d] - toexpr(S(c_(b), c_(t - 1), c_(d)) if t > 0 else toexpr(finit((c_(b), c_(d)))))).t) is False for d in range(d0))
                        for d in range(d0):
                            if known:
                                out[b, i, d] = toexpr(S(c_(b), c_(t), c_(d)))
                            elif deriv:
                                v = opaque_row("Jv", (DP, DP), ys, zs)
                                for e in range(d0):
                                    out[b, i, d, e] = app(v, (c_(d), c_(e)))
                            else:
                                out[b, i, d] = app(opaque_row("fv", (DP,), ys, zs), (c_(d),))
                        continue
                    for d in range(d0):
                        row = [toexpr(fA((c_(b), c_(t), c_(d), c_(e)))) for e in range(d0)]
                        if deriv:
                            for e in range(d0):
                                out[b, i, d, e] = row[e]
                        else:
                            out[b, i, d] = sum((row[e] * ys[e] for e in range(d0)), toexpr(fg((c_(b), c_(t), c_(d)))))
            k = 4 if deriv else 3
            r = T.new_sym("rows", (BP, y.sh[1], DP, DP)[:k], True)
            cur().syms[("model", r.name)] = lambda env, i: env.terms(out[i].t, {})
            return T.Tensor(r.shape, lambda i: app(r, i), True)

        def func(y, z):
            """the function of the caller: sample by sample"""
            if CONCRETE[0] is not None:
                last.append((z, rows(y, z, False)))
                return last[-1][1]
            if len(y.sh) != 3 or len(z.sh) != 3 or not cur().eq0(y.sh[1] - z.sh[1]):
                raise Unsupported("the function is called on something else")
            n = cur().n(z.sh[1])
            off = cur().n(LP - n)
            if not X.forall_zero(z.sh, lambda i: z.at(i) - toexpr(fx((i[0], i[1] + off, i[2])))):
                raise Unsupported("the function is called on other samples of x")
            fy = T.freeze(y)
            if affine:
                return T.Tensor((BP, n, DP), lambda i: toexpr(fg((i[0], i[1] + off, i[2]))) + Sum(
                    ZERO, DP, lambda e: toexpr(fA((i[0], i[1] + off, i[2], e))) * toexpr(fy((i[0], i[1], e)))), True)
            F_ = T.new_sym("f", (BP, n, DP), True)
            prev = lambda i: S(i[0], off - 1, i[1]) if cur().ge0(off - 1) else toexpr(finit((i[0], i[1])))
            if X.forall_zero((BP, DP), lambda i: toexpr(fy((i[0], ZERO, i[1]))) - toexpr(prev(i))):
                return T.Tensor((BP, n, DP), lambda i: S(i[0], off, i[2]) if cur().eq0(i[1]) else app(F_, i), True)
            return T.Tensor((BP, n, DP), lambda i: app(F_, i), True)

        def fprime(y, z):
            if CONCRETE[0] is not None:
                return rows(y, z, True)
            n = cur().n(z.sh[1])
            if len(y.sh) != 3 or not cur().eq0(y.sh[1] - n):
                raise Unsupported("the derivative is taken of something else")
            off = cur().n(LP - n)
            if not X.forall_zero(z.sh, lambda i: z.at(i) - toexpr(fx((i[0], i[1] + off, i[2])))):
                raise Unsupported("the derivative is taken at other samples of x")
            if affine:
                return T.Tensor((BP, n, DP, DP), lambda i: toexpr(fA((i[0], i[1] + off, i[2], i[3]))), True)
            J = T.new_sym("J", (BP, n, DP, DP), True)
            return T.Tensor(J.shape, lambda i: app(J, i), True)

        def jacobian(h, y, create_graph=False, vectorize=False, **kw):
            """the derivative of h at y, h being a sum of the function over batch and time"""
            last.clear()
            out = h(y)
            if CONCRETE[0] is not None:
                if len(last) != 1:
                    raise Unsupported("derivative of something else")
                z, v = last[0]
                if len(out.sh) != 1:
                    return T.Tensor(out.sh + y.sh, lambda i: app(T.new_sym("derivative", out.sh + y.sh, True), i), True)
                J = rows(y, z, True)
                if not cur().eq0(out.sh[0] - DP) or any(numev.nonzero((toexpr(out.at((P.const(d),))) - Sum(ZERO, v.sh[0], lambda b: Sum(ZERO, v.sh[1], lambda t: v.at((b, t, P.const(d)))))).t) is not False for d in range(DP.cval())):
                    raise Unsupported("derivative of something else")
                return T.Tensor((out.sh[0],) + y.sh, lambda i: J.at((i[1], i[2], i[0], i[3])), True)
            if len(out.sh) != 1 or not cur().eq0(out.sh[0] - DP):
                raise Unsupported("derivative of something else")
            n = cur().n(y.sh[1])
            off = cur().n(LP - n)
            J = fprime(y, x[:, mk(off):])
            if affine:
                whole = func(y, x[:, mk(off):])
                if not X.forall_zero((DP,), lambda i: out.at(i) - Sum(ZERO, BP, lambda b: Sum(ZERO, n, lambda t: whole.at((b, t, i[0]))))):
                    raise Unsupported("derivative of something else")
            return T.Tensor((DP, BP, n, DP), lambda i: J.at((i[1], i[2], i[0], i[3])), True)

        stop, ATOL, RTOL = [], object(), object()

        def allclose(a, b, rtol=None, atol=None, **k):
            """some verdict; a positive one is remembered with the operands it was given for"""
            v = cur().ge0(cur().newvar(cur().fresh("close"), 0) - 1)
            stop[:] = [(T.freeze(a), a.sh, T.freeze(b), b.sh, y_now(), atol is ATOL and rtol is RTOL)] if v else []
            return v

        def y_now():
            y = sys._getframe(2).f_locals.get("y")
            return (T.freeze(y), y.sh) if isinstance(y, T.Tensor) else None

        def justified(res):
            """an early stop: the whole new guess was compared with the whole previous one, within the caller's tolerance"""
            if not stop or CONCRETE[0] is not None or FRAME[0]:
                return
            fa, sa, fb, sb, y, tol = stop[0]
            if y is None or not tol or len(sa) != 3 or len(sb) != 3 or any(not cur().eq0(p - q) for p, q in zip(sa, sb)):
                raise Unproved("early stop: what is compared, and within which tolerance")
            fy, sy = y
            off = cur().n(T.P_(res.sh[1]) - sa[1])
            if not cur().eq0(sa[0] - BP) or not cur().eq0(sa[2] - DP) or not cur().eq0(sy[1] - 1 - sa[1]):
                raise Unproved("early stop: the whole guess is compared")
            old = lambda i: toexpr(fy((i[0], i[1] + 1, i[2])))
            new = lambda i: toexpr(res.at((i[0], i[1] + off, i[2])))
            for p, q in ((fa, fb), (fb, fa)):
                if X.forall_zero(sa, lambda i: toexpr(p(i)) - new(i)) and X.forall_zero(sa, lambda i: toexpr(q(i)) - old(i)):
                    return
            raise Unproved("early stop: the new guess is compared with the previous one")

        m.torch.allclose = allclose
        m.torch.autograd = load.NS("torch.autograd", functional=load.NS("torch.autograd.functional", jacobian=jacobian))
        kw = {} if jac else dict(fprime=fprime)
        if not ext:
            kw["unroll_factor"] = size("U")
        if iters is None:
            k = size("k", 1)
            requires(k + 1 < L)
            if CONCRETE[0] is None:
                m.range = Invariant(B, L, D, S, finit, affine, k)
            lim = k + 1
        elif iters == 0:
            k = 0
            if CONCRETE[0] is None:
                m.range = Invariant(B, L, D, S, finit, affine, 0)
            lim = 1
        else:
            requires(iters < L)
            lim = iters
        r = m.newton_solve(func, x, y0, init, max_iter=lim, atol=ATOL, rtol=RTOL, **kw)
        if not isinstance(r, tuple) or len(r) != 2:
            raise Refuted("newton_solve returns %r" % (type(r),))
        y, it = r
        justified(y)
        same_shape(y, (B, L, D), "solution")
        if iters is None or iters == 0:
            need_it = k + 1
            if not cur().eq0(T.P_(it) - T.P_(need_it)) and CONCRETE[0] is None:
                raise Unproved("number of iterations")
        known = L if affine else it
        ensures(y[:, : known], (B, known, D), lambda i: S(*i), "samples known after the iterations")

    return run


for ext in (True, False):
    e = "yes" if ext else "no"
    for jac in (False, True):
        j = "automatic" if jac else "given"
        for aff in (False, True):
            f = "affine" if aff else "any function"
            add("prototype/nl.newton_solve %s jacobian:%s extension:%s first iteration" % (f, j, e), "prototype/nl.py:newton_solve", ob(aff, jac, ext, 0))
            add("prototype/nl.newton_solve %s jacobian:%s extension:%s iteration k" % (f, j, e), "prototype/nl.py:newton_solve", ob(aff, jac, ext, None))
            for n in (1, 2, 3):
                add("prototype/nl.newton_solve %s jacobian:%s extension:%s max_iter:%d" % (f, j, e, n), "prototype/nl.py:newton_solve", ob(aff, jac, ext, n))
