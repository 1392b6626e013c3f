"""Symbolic tensors: the torch operations used by philtorch, given by their defining index maps."""
from fractions import Fraction
from poly import P, ZERO, ONE, topoly
import ctx as C
from ctx import cur, mk, SymInt, Unsupported, Violated
import expr as X
from expr import Expr, Sym, Sum, app, toexpr, const, delta, ZEROE


class TorchError(RuntimeError):
    """An error torch itself would raise (shape mismatch, index out of range, ...)."""


class Size(tuple):
    def numel(self):
        r = 1
        for s in self:
            r = r * s
        return r


MUTLOG = []
SERIAL = [0]


def next_serial():
    SERIAL[0] += 1
    return SERIAL[0]


class Storage:
    def __init__(self, arg=None):
        self.serial = next_serial()
        self.version = 0
        self.arg = arg
        self.hist = []
        self.asof = None


class DType:
    def __init__(self, name, cplx):
        self.name = name
        self.is_complex = cplx
        self.is_floating_point = not cplx

    def __repr__(self):
        return self.name


RDT = DType("real", False)
CDT = DType("complex", True)
INTDT = DType("int", False)


class Device:
    type = "cpu"

    def __repr__(self):
        return "cpu"


CPU = Device()


def P_(x):
    return cur().n(topoly(x))


class Tensor:
    def __init__(self, sh, fn, real=True, st=None, sym=None, owner=True):
        self.sh = tuple(P_(s) for s in sh)
        self.fn = fn
        self._real = real
        self.st = st or Storage()
        self.sym = sym
        self.owner = owner
        self.rowmajor = None
        if owner:
            self.st.hist.append(fn)

    # -------------------------------------------------------------- access
    def at(self, idx):
        if self.owner:
            st = self.st
            return toexpr(st.hist[st.version if st.asof is None else st.asof](tuple(idx)))
        return toexpr(self.fn(tuple(idx)))

    def snapshot(self):
        return Tensor(self.sh, freeze(self), self._real)

    def mutated(self):
        return self.st.version > 0

    inv = None
    lay = None

    def view_of(self, sh, fn, real=None, sym=None, inv=None):
        """A view; inv maps an index of self to the index of the view (None: not in the view)."""

        def g(idx):
            return fn(idx)

        t = Tensor(sh, g, self._real if real is None else real, st=self.st, sym=sym, owner=False)
        if inv is not None:
            if self.owner:
                t.inv = inv
            elif self.inv is not None:
                up = self.inv

                def comp(i):
                    j = up(i)
                    return None if j is None else inv(j)

                t.inv = comp
        return t

    @property
    def csh(self):
        c = cur()
        return tuple(c.n(s) for s in self.sh)

    @property
    def shape(self):
        return Size(mk(s) for s in self.sh)

    def size(self, d=None):
        if d is None:
            return self.shape
        return mk(self.sh[self.dimn(d)])

    def dimn(self, d):
        n = len(self.sh)
        if not isinstance(d, int):
            d = d.__index__()
        if d < -n or d >= n:
            raise TorchError("dimension %d out of range" % d)
        return d % n

    def dim(self):
        return len(self.sh)

    @property
    def ndim(self):
        return len(self.sh)

    def __len__(self):
        n = mk(self.sh[0])
        if isinstance(n, int):
            return n
        raise Unsupported("len of a symbolic tensor")

    def numel(self):
        r = ONE
        for s in self.sh:
            r = r * s
        return mk(r)

    dtype = property(lambda s: RDT if s._real else CDT)
    device = property(lambda s: CPU)
    is_cpu = True
    is_cuda = False
    requires_grad = False
    layout = "strided"

    def is_complex(self):
        return not self._real

    def is_floating_point(self):
        return self._real

    def is_contiguous(self, *a, **k):
        return True

    def contiguous(self, *a, **k):
        return self

    def detach(self):
        return self

    def requires_grad_(self, *a):
        return self

    def to(self, *a, **k):
        return self

    type_as = to

    def float(self):
        return self

    double = float

    def clone(self, *a, **k):
        self_at = freeze(self)
        return Tensor(self.sh, self_at, self._real)

    # ------------------------------------------------------------ reshaping
    def unsqueeze(self, d):
        n = len(self.sh) + 1
        if d < -n or d >= n:
            raise TorchError("dimension %d out of range" % d)
        d = d % n
        sh = self.sh[:d] + (ONE,) + self.sh[d:]
        return self.view_of(sh, lambda i: self.at(i[:d] + i[d + 1:]), inv=lambda i: i[:d] + (ZERO,) + i[d:])

    def squeeze(self, d=None):
        if d is None:
            t = self
            for k in reversed(range(len(self.sh))):
                if cur().eq0(t.sh[k] - 1):
                    t = t.squeeze(k)
            return t
        d = self.dimn(d)
        if not cur().eq0(self.sh[d] - 1):
            return self
        return self.view_of(self.sh[:d] + self.sh[d + 1:], lambda i: self.at(i[:d] + (ZERO,) + i[d:]))

    def expand(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = tuple(sizes[0])
        k = len(sizes) - len(self.sh)
        if k < 0:
            raise TorchError("expand to fewer dimensions")
        sh = []
        src = []
        for j, s in enumerate(sizes):
            if j < k:
                sh.append(P_(s))
                continue
            own = P_(self.sh[j - k])
            p = P_(s)
            if p == P.const(-1) or p == own:
                sh.append(own)
                src.append(False)
            elif own == ONE:
                sh.append(p)
                src.append(True)
            elif cur().eq0(p - own):
                sh.append(p)
                src.append(False)
            elif cur().eq0(own - 1):
                sh.append(p)
                src.append(True)
            else:
                raise TorchError("cannot expand size %r to %r" % (own, p))
        return self.view_of(sh, lambda i: self.at(tuple(ZERO if b else x for b, x in zip(src, i[k:]))))

    def broadcast_to(self, *sizes):
        return self.expand(*sizes)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def flip(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = tuple(dims[0])
        ds = {self.dimn(d) for d in dims}
        return self.copy_of(self.sh, lambda i: self.at(tuple(self.sh[k] - 1 - x if k in ds else x for k, x in enumerate(i))))

    def copy_of(self, sh, fn, real=None):
        """A new tensor whose value is fixed now (later in-place changes to self do not show)."""
        st, ver = self.st, self.st.version

        def g(idx):
            old, st.asof = st.asof, ver
            try:
                return fn(idx)
            finally:
                st.asof = old

        return Tensor(sh, g, self._real if real is None else real)

    def transpose(self, a, b):
        a, b = self.dimn(a), self.dimn(b)
        perm = list(range(len(self.sh)))
        perm[a], perm[b] = perm[b], perm[a]
        return self.permute(*perm)

    def permute(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        perm = [self.dimn(p) for p in perm]
        sh = tuple(self.sh[p] for p in perm)

        def fn(i):
            src = [None] * len(perm)
            for k, p in enumerate(perm):
                src[p] = i[k]
            return self.at(tuple(src))

        return self.view_of(sh, fn, inv=lambda i: tuple(i[p] for p in perm))

    @property
    def mT(self):
        if len(self.sh) < 2:
            raise TorchError("mT of a vector")
        return self.transpose(-1, -2)

    @property
    def T(self):
        return self.permute(*reversed(range(len(self.sh))))

    def t(self):
        return self.T

    @property
    def mH(self):
        return self.mT.conj()

    def flatten(self, s=0, e=-1, start_dim=None, end_dim=None):
        s = s if start_dim is None else start_dim
        e = e if end_dim is None else end_dim
        if not self.sh:
            return self.reshape(1)
        s, e = self.dimn(s), self.dimn(e)
        if e < s:
            raise TorchError("flatten range")
        dims = self.sh[s:e + 1]
        tot = ONE
        for d in dims:
            tot = tot * d
        rm = self.rowmajor
        if rm is not None and len(dims) == 2 and rm[0] == s and cur().n(dims[1]) == cur().n(rm[1]):
            # the rows of an unflattened axis laid out one after the other: position f is position f of that axis
            return self.view_of(self.sh[:s] + (tot,) + self.sh[e + 1:], lambda i: rm[2](i))

        def fn(i):
            f = i[s]
            out = []
            for d in reversed(dims[1:]):
                f, r = cur().divmod(f, d)
                out.append(r)
            out.append(f)
            return self.at(i[:s] + tuple(reversed(out)) + i[s + 1:])

        return self.view_of(self.sh[:s] + (tot,) + self.sh[e + 1:], fn)

    def unflatten(self, d, sizes):
        d = self.dimn(d)
        own = P_(self.sh[d])
        sizes = [P_(x) for x in sizes]
        m1 = P.const(-1)
        if m1 in sizes:
            prod = ONE
            for x in sizes:
                if x != m1:
                    prod = prod * x
            q, r = cur().divmod(own, prod)
            if not cur().eq0(r):
                raise TorchError("unflatten: size not divisible")
            sizes = [cur().n(q) if x == m1 else x for x in sizes]
        else:
            prod = ONE
            for x in sizes:
                prod = prod * x
            if not cur().eq0(own - prod):
                raise TorchError("unflatten: sizes do not multiply to %r" % own)
        k = len(sizes)

        def fn(i):
            f = i[d]
            for j in range(1, k):
                f = f * sizes[j] + i[d + j]
            return self.at(i[:d] + (f,) + i[d + k:])

        def inv(i):
            f = i[d]
            out = []
            for s in reversed(sizes[1:]):
                f, r = cur().divmod(f, s)
                out.append(r)
            out.append(f)
            return i[:d] + tuple(reversed(out)) + i[d + 1:]

        y = self.view_of(self.sh[:d] + tuple(sizes) + self.sh[d + 1:], fn, inv=inv)
        if k == 2:
            y.rowmajor = (d, sizes[1], self.at)
        return y

    def reshape(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = tuple(sizes[0])
        sizes = [P_(x) for x in sizes]
        own = ONE
        for s in self.sh:
            own = own * s
        m1 = P.const(-1)
        if m1 in sizes:
            prod = ONE
            for x in sizes:
                if x != m1:
                    prod = prod * x
            q, r = cur().divmod(own, prod)
            if not cur().eq0(r):
                raise TorchError("reshape: not divisible")
            sizes = [cur().n(q) if x == m1 else x for x in sizes]
        else:
            prod = ONE
            for x in sizes:
                prod = prod * x
            if not cur().eq0(own - prod):
                raise TorchError("reshape: sizes do not multiply to %r" % own)
        dims = self.sh
        if list(sizes) == [cur().n(d) for d in dims]:
            return self.view_of(self.sh, lambda i: self.at(i))

        # common leading dimensions stay as they are
        k = 0
        while k < min(len(dims), len(sizes)) and cur().n(dims[k]) == sizes[k]:
            k += 1
        td, ts = dims[k:], sizes[k:]

        def fn(i):
            f = ZERO
            for s, x in zip(ts, i[k:]):
                f = f * s + x
            out = []
            for d in reversed(td[1:]):
                f, r = cur().divmod(f, d)
                out.append(r)
            if td:
                out.append(f)
            return self.at(i[:k] + tuple(reversed(out)))

        return self.view_of(sizes, fn)

    def view(self, *sizes):
        return self.reshape(*sizes)

    def ravel(self):
        return self.reshape(-1)

    def repeat(self, *reps):
        if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
            reps = tuple(reps[0])
        k = len(reps) - len(self.sh)
        if k < 0:
            raise TorchError("repeat dims")
        sh = []
        for j, r in enumerate(reps):
            r = P_(r)
            sh.append(r * self.sh[j - k] if j >= k else r)

        def fn(i):
            out = []
            for j, x in enumerate(i[k:]):
                if P_(reps[j + k]) == ONE:
                    out.append(x)
                else:
                    out.append(cur().divmod(x, self.sh[j])[1])
            return self.at(tuple(out))

        return self.copy_of(sh, fn)

    def repeat_interleave(self, n, dim=None):
        t = self if dim is not None or len(self.sh) == 1 else self.flatten()
        d = t.dimn(dim if dim is not None else 0)
        n = P_(n)
        return t.copy_of(
            t.sh[:d] + (t.sh[d] * n,) + t.sh[d + 1:],
            lambda i: t.at(i[:d] + (cur().divmod(i[d], n)[0],) + i[d + 1:]),
        )

    def unfold(self, d, size, step):
        d = self.dimn(d)
        size = P_(size)
        if not cur().ge0(self.sh[d] - size):
            raise TorchError("unfold: size larger than the dimension")
        step = P_(step)
        if step == ONE:
            n = self.sh[d] - size + 1
        else:
            q, _ = cur().divmod(self.sh[d] - size, step)
            n = q + 1
        return self.view_of(
            self.sh[:d] + (n,) + self.sh[d + 1:] + (size,),
            lambda i: self.at(i[:d] + (i[d] * step + i[-1],) + i[d + 1:-1]),
        )

    def unbind(self, dim=0):
        d = self.dimn(dim)
        n = self.sh[d]

        def get(k):
            return self.view_of(self.sh[:d] + self.sh[d + 1:], lambda i: self.at(i[:d] + (k,) + i[d:]))

        nn = cur().n(n)
        if nn.is_const() and nn.cval() <= 8:
            return tuple(get(P.const(k)) for k in range(nn.cval()))
        return SymSeq(n, get)

    def __iter__(self):
        return iter(self.unbind(0))

    def split(self, sizes, dim=0):
        return split(self, sizes, dim)

    # ------------------------------------------------------------- indexing
    def __getitem__(self, key):
        plan, sh = index_plan(self, key)
        adv = [p for p in plan if p[0] == "adv"]
        if adv:
            raise Unsupported("reading with an index list")

        def fn(i):
            src = []
            k = 0
            for p in plan:
                if p[0] == "new":
                    k += 1
                elif p[0] == "int":
                    src.append(p[1])
                else:
                    src.append(p[1] + i[k])
                    k += 1
            return self.at(tuple(src))

        def inv(i):
            c = cur()
            out = []
            src = 0
            for p in plan:
                if p[0] == "new":
                    out.append(ZERO)
                    continue
                x = i[src]
                src += 1
                if p[0] == "int":
                    if not c.eq0(x - p[1]):
                        return None
                else:
                    lo, n = p[1], p[2]
                    if not c.ge0(x - lo) or not c.ge0(c.n(lo + n) - 1 - c.n(x)):
                        return None
                    out.append(x - lo)
            return tuple(out)

        y = self.view_of(sh, fn, inv=inv)
        rm = self.rowmajor
        if rm is not None and len(plan) == len(self.sh) == len(sh) and all(
                p[0] == "sl" and p[1] == ZERO and (k == rm[0] or cur().n(p[2]) == cur().n(self.sh[k])) for k, p in enumerate(plan)):
            y.rowmajor = rm  # the first rows only
        return y

    def mutate_check(self):
        if self.st.arg is not None:
            raise Violated("argument %s is modified in place" % self.st.arg)
        if not self.owner and self.inv is None:
            raise Unsupported("in-place change through a view")

    def commit(self, newfn):
        st = self.st
        if self.owner:
            st.hist.append(newfn)
        else:
            old, inv = st.hist[-1], self.inv

            def g(i):
                j = inv(i)
                return old(i) if j is None else newfn(j)

            st.hist.append(g)
        st.version += 1
        MUTLOG.append(st.serial)
        self.sym = None

    def __setitem__(self, key, val):
        self.mutate_check()
        plan, sh = index_plan(self, key)
        val = as_tensor(val, self._real)
        vt = broadcast_view(val, sh)
        vat = freeze(vt)
        old = freeze(self)

        def fn(i):
            c = cur()
            k = 0
            inner = []
            advpos = None
            src = 0
            for p in plan:
                if p[0] == "new":
                    inner.append(ZERO)
                    continue
                x = i[src]
                src += 1
                if p[0] == "int":
                    if not c.eq0(x - p[1]):
                        return old(i)
                elif p[0] == "adv":
                    # aligned index lists: position q with x == start + q
                    q = x - p[1]
                    if advpos is None:
                        if not c.ge0(q) or not c.ge0(c.n(p[2]) - 1 - c.n(q)):
                            return old(i)
                        advpos = q
                        inner.append(("A", q))
                    else:
                        if not c.eq0(q - advpos):
                            return old(i)
                else:
                    lo, n = p[1], p[2]
                    if not c.ge0(x - lo) or not c.ge0(c.n(lo + n) - 1 - c.n(x)):
                        return old(i)
                    inner.append(x - lo)
            inner2 = tuple(v[1] if isinstance(v, tuple) else v for v in inner)
            return vat(inner2)

        self.commit(fn)

    def inplace(self, newfn):
        self.mutate_check()
        self.commit(newfn)
        return self

    def _inop(self, f, o):
        o = as_tensor(o, self._real)
        self.mutate_check()
        ob = broadcast_view(o, self.sh)
        a, b = freeze(self), freeze(ob)
        return self.inplace(lambda i: f(a(i), b(i)))

    def add_(self, o):
        return self._inop(lambda a, b: a + b, o)

    def sub_(self, o):
        return self._inop(lambda a, b: a - b, o)

    def mul_(self, o):
        return self._inop(lambda a, b: a * b, o)

    def neg_(self):
        return self._inop(lambda a, b: -a, 0)

    def copy_(self, o):
        return self._inop(lambda a, b: b, o)

    def fill_(self, o):
        return self._inop(lambda a, b: b, o)

    def zero_(self):
        return self._inop(lambda a, b: ZEROE, 0)

    def div_(self, o):
        return self._inop(lambda a, b: a * inverse(b), o)

    def addcmul_(self, a, b, value=1):
        return self.add_(a * b * value)

    def __iadd__(self, o):
        return self.add_(o)

    def __isub__(self, o):
        return self.sub_(o)

    def __imul__(self, o):
        return self.mul_(o)

    def __itruediv__(self, o):
        return self.div_(o)

    # ----------------------------------------------------------- arithmetic
    def __neg__(self):
        return self.copy_of(self.sh, lambda i: -self.at(i))

    def neg(self):
        return -self

    def __add__(self, o):
        return binop(self, o, lambda a, b: a + b)

    __radd__ = __add__

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else o * alpha)

    def __sub__(self, o):
        return binop(self, o, lambda a, b: a - b)

    def sub(self, o):
        return self - o

    def __rsub__(self, o):
        return binop(self, o, lambda a, b: b - a)

    def __mul__(self, o):
        return binop(self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    def mul(self, o):
        return self * o

    def __truediv__(self, o):
        return binop(self, o, lambda a, b: a * inverse(b))

    def __rtruediv__(self, o):
        return binop(self, o, lambda a, b: b * inverse(a))

    def div(self, o):
        return self / o

    def reciprocal(self):
        return self.copy_of(self.sh, lambda i: inverse(self.at(i)))

    def __pow__(self, e):
        if isinstance(e, int) and e >= 0:
            def fn(i):
                r = const(1)
                a = self.at(i)
                for _ in range(e):
                    r = r * a
                return r

            return self.copy_of(self.sh, fn)
        if isinstance(e, Tensor) and getattr(e, "intfn", None) is not None and not self.sh:
            g, f0 = e.intfn, freeze(self)
            return Tensor(e.sh, lambda i: int_power(f0(()), g(tuple(i))), self._real)
        raise Unsupported("power")

    def pow(self, e):
        return self ** e

    def abs(self):
        f0 = freeze(self)
        if not self._real:
            raise Unsupported("modulus of a complex tensor")

        def fn(i):
            e = toexpr(f0(tuple(i)))
            num, _ = ratio(e)
            return e if cur().ge0(num) else -e

        return Tensor(self.sh, fn, True)

    def square(self):
        return self ** 2

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def matmul(self, o):
        return matmul(self, o)

    def conj(self):
        if self._real:
            return self
        return self.view_of(self.sh, lambda i: self.at(i).conj())

    def conj_physical(self):
        if self._real:
            return self
        return self.copy_of(self.sh, lambda i: self.at(i).conj())

    def resolve_conj(self):
        return self

    @property
    def real(self):
        if self._real:
            return self
        return self.view_of(
            self.sh, lambda i: (self.at(i) + self.at(i).conj()) * Fraction(1, 2), real=True
        )

    def sum(self, dim=None, keepdim=False):
        if dim is None:
            dim = tuple(range(len(self.sh)))
        if isinstance(dim, int):
            dim = (dim,)
        ds = sorted(self.dimn(d) for d in dim)
        sh = [s for k, s in enumerate(self.sh) if k not in ds or keepdim]
        if keepdim:
            sh = [ONE if k in ds else s for k, s in enumerate(self.sh)]

        def fn(i):
            if keepdim:
                i = tuple(x for k, x in enumerate(i) if k not in ds)

            def go(k, acc, rest):
                if k == len(self.sh):
                    return self.at(tuple(acc))
                if k in ds:
                    return Sum(ZERO, self.sh[k], lambda x: go(k + 1, acc + [x], rest))
                return go(k + 1, acc + [rest[0]], rest[1:])

            return go(0, [], list(i))

        return self.copy_of(sh, fn)

    def new_zeros(self, *sizes, **k):
        return zeros(*sizes, real=self._real)

    def new_empty(self, *sizes, **k):
        r = uninit(*sizes, real=self._real)
        r.lay = "contiguous"
        return r

    def new_ones(self, *sizes, **k):
        return full_(sizes, 1, real=self._real)

    def new_full(self, size, v, **k):
        return full_((size,), v, real=self._real)

    def cumprod(self, dim=-1):
        return cumprod(self, dim)

    def bool(self):
        raise Unsupported("truth value of tensor data")

    def __bool__(self):
        raise Unsupported("truth value of tensor data")

    def item(self):
        raise Unsupported("item()")

    def __eq__(self, o):
        if o is None:
            return False
        raise Unsupported("tensor comparison")

    __hash__ = object.__hash__

    def __lt__(self, o):
        return compare(self, o, lambda n: cur().ge0(-n - 1))

    def __le__(self, o):
        return compare(self, o, lambda n: cur().ge0(-n))

    def __gt__(self, o):
        return compare(self, o, lambda n: cur().ge0(n - 1))

    def __ge__(self, o):
        return compare(self, o, lambda n: cur().ge0(n))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.endswith("_") and self.st.arg is not None:
            raise Violated("argument %s is modified in place by %s" % (self.st.arg, name))
        raise Unsupported("Tensor.%s" % name)

    def __repr__(self):
        return "Tensor%s" % (tuple(self.shape),)


def freeze(t):
    """The value function of t as of now."""
    st, ver = t.st, t.st.version
    if t.owner:
        f = st.hist[ver]
        return lambda i: toexpr(f(tuple(i)))
    f = t.fn

    def g(i):
        old, st.asof = st.asof, ver
        try:
            return toexpr(f(tuple(i)))
        finally:
            st.asof = old

    return g


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = P_(lo), P_(hi)

    def seq(self):
        lo = self.lo
        n = self.hi - lo
        if not cur().ge0(n):
            n = ZERO
        return SymSeq(n, lambda k: mk(lo + k))


def index_plan(t, key):
    """Translate a subscript into per-source-dimension steps and the result shape."""
    if not isinstance(key, tuple):
        key = (key,)
    c = cur()
    nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
    if nspec > len(t.sh):
        raise TorchError("too many indices")
    if Ellipsis not in [k if (k is Ellipsis) else 0 for k in key]:
        key = key + (Ellipsis,)
    out = []
    sh = []
    d = 0
    advseen = False
    for k in key:
        if k is None:
            out.append(("new",))
            sh.append(ONE)
        elif k is Ellipsis:
            rest = len(t.sh) - nspec
            for _ in range(rest):
                out.append(("sl", ZERO, t.sh[d]))
                sh.append(t.sh[d])
                d += 1
        elif isinstance(k, slice):
            n = t.sh[d]
            if k.step is not None and k.step != 1:
                raise Unsupported("strided slice")
            lo = slice_pos(k.start, n, ZERO)
            hi = slice_pos(k.stop, n, n)
            ln = c.n(hi) - c.n(lo)
            if not c.ge0(ln):
                ln = ZERO
            out.append(("sl", c.n(lo), c.n(ln)))
            sh.append(c.n(ln))
            d += 1
        elif isinstance(k, (SymRange, SymSeq)) or (isinstance(k, list)):
            if isinstance(k, list):
                if not k:
                    lo, n = ZERO, ZERO
                else:
                    if k != list(range(k[0], k[0] + len(k))):
                        raise Unsupported("index list")
                    lo, n = P.const(k[0]), P.const(len(k))
            elif isinstance(k, SymRange):
                lo = k.lo
                n = k.hi - k.lo
                if not c.ge0(n):
                    n = ZERO
            else:
                raise Unsupported("index sequence")
            out.append(("adv", lo, n))
            if not advseen:
                sh.append(n)
            else:
                a = next(p for p in out if p[0] == "adv")
                if not c.eq0(a[2] - n):
                    raise TorchError("index lists of different length")
            advseen = True
            d += 1
        elif isinstance(k, (int, SymInt)) and not isinstance(k, bool):
            n = t.sh[d]
            p = P_(k)
            if c.ge0(p):
                pass
            else:
                p = c.n(p + n)
                if not c.ge0(p):
                    raise TorchError("index %r out of range for size %r" % (k, n))
            if not c.ge0(c.n(n) - 1 - c.n(p)):
                raise TorchError("index %r out of range for size %r" % (k, n))
            out.append(("int", c.n(p)))
            d += 1
        elif isinstance(k, Tensor):
            raise Unsupported("tensor index")
        else:
            raise Unsupported("subscript %r" % (k,))
    return out, sh


def slice_pos(s, n, default):
    c = cur()
    n = c.n(n)
    if s is None:
        return default
    p = P_(s)
    if not c.ge0(p):
        p = c.n(p + n)
        if not c.ge0(p):
            return ZERO
    p = c.n(p)
    if not c.ge0(c.n(n) - p):
        return c.n(n)
    return c.n(p)


class SymSeq:
    """A sequence of symbolic length."""

    def __init__(self, n, get):
        self.n = P_(n)
        self.get = get

    def length(self):
        return mk(self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo = slice_pos(k.start, self.n, ZERO)
            hi = slice_pos(k.stop, self.n, self.n)
            if k.step is not None:
                raise Unsupported("sequence step")
            g = self.get
            return SymSeq(hi - lo, lambda j: g(cur().n(lo) + j))
        p = P_(k)
        if not cur().ge0(p):
            p = p + self.n
        if not cur().ge0(cur().n(self.n) - 1 - cur().n(p)) or not cur().ge0(p):
            raise IndexError("sequence index")
        return self.get(cur().n(p))

    def __iter__(self):
        n = cur().n(self.n)
        if n.is_const():
            return iter([self.get(P.const(k)) for k in range(n.cval())])
        raise Unsupported("iteration over a symbolic sequence outside a for loop")


class SymList:
    """A list built by appends: segments of single items and symbolic runs."""

    def __init__(self, segs=()):
        self.segs = list(segs)

    def append(self, x):
        self.segs.append(("one", x))

    def parts(self):
        return self.segs


def seq_parts(xs):
    """List-like to segments [('one', item) | ('many', n, get)]."""
    if isinstance(xs, SymList):
        return xs.segs
    if isinstance(xs, SymSeq):
        n = cur().n(xs.n)
        if n.is_const():
            return [("one", xs.get(P.const(k))) for k in range(n.cval())]
        return [("many", xs.n, xs.get)]
    return [("one", x) for x in xs]


def as_tensor(x, real=True):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, complex):
        return Tensor((), lambda i: toexpr(x.real), False) if x.imag == 0 else unsupported("complex constant")
    v = toexpr(x)
    return Tensor((), lambda i: v, True)


def unsupported(msg):
    raise Unsupported(msg)


def broadcast_dims(shapes):
    c = cur()
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cand = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            p = c.n(s[j])
            if cand is None or cand == p:
                cand = p
            elif p == ONE:
                pass
            elif cand == ONE:
                cand = p
            elif c.eq0(cand - p):
                cand = c.n(cand)
            elif c.eq0(p - 1):
                pass
            elif c.eq0(cand - 1):
                cand = c.n(p)
            else:
                raise TorchError("shapes do not broadcast: %r vs %r" % (cand, p))
        out.append(c.n(cand))
    return tuple(out)


def broadcast_view(t, sh):
    k = len(sh) - len(t.sh)
    if k < 0:
        # leading ones may be dropped on assignment
        while k < 0 and cur().eq0(t.sh[0] - 1):
            t = t.squeeze(0)
            k += 1
        if k < 0:
            raise TorchError("cannot broadcast to fewer dimensions")
    c = cur()
    ones = []
    for j, s in enumerate(t.sh):
        s, q = c.n(s), c.n(sh[j + k])
        if s == q:
            ones.append(False)
        elif s == ONE:
            ones.append(True)
        elif c.eq0(s - q):
            ones.append(False)
        elif c.eq0(s - 1):
            ones.append(True)
        else:
            raise TorchError("size %r does not broadcast to %r" % (s, q))
    return t.view_of(sh, lambda i: t.at(tuple(ZERO if o else x for o, x in zip(ones, i[k:]))))


def binop(a, b, f):
    real = None
    if isinstance(b, complex):
        b = as_tensor(b)
    if not isinstance(b, (Tensor, int, float, Fraction, SymInt)):
        if isinstance(b, C.SymRatio):
            b = Tensor((), lambda i, r=b: toexpr(r.num) * inverse(toexpr(r.den)), True)
        else:
            return NotImplemented
    b = as_tensor(b)
    sh = broadcast_dims([a.sh, b.sh])
    av, bv = broadcast_view(a, sh), broadcast_view(b, sh)
    fa, fb = freeze(av), freeze(bv)
    return Tensor(sh, lambda i: f(fa(i), fb(i)), a._real and b._real)


def inverse(e):
    """1 / e. A single product inverts factor-wise; otherwise an opaque reciprocal."""
    e = toexpr(e)
    ts = X.normalize(e)
    if not ts:
        raise Unsupported("division by zero")
    if len(ts) == 1 and not ts[0].b:
        t = ts[0]
        for b in t.f:
            if b[0] in ("mp", "ch"):
                break
        else:
            return Expr([X.Term(1 / t.c, {b: -x for b, x in t.f.items()}, ())])
    h = RECIP[0]
    if h is not None:
        r = h(ts)
        if r is not None:
            return r
    key = tuple(sorted((X.canon(t)[0], X.canon(t)[1], str(t.c)) for t in ts))
    c = cur()
    for s, k, _ in c.syms.get("#recip", ()):
        if k == key:
            return app(s, ())
    s = new_sym("recip", (), real=False)
    c.syms["#recip"] = c.syms.get("#recip", ()) + ((s, key, ts),)
    return app(s, ())


RECIP = [None]


def ratio(e):
    """A value made of integers and sizes as (p, q) with the sign of p its sign; q > 0."""
    c = cur()
    rec = {sy.name: ts for sy, k, ts in c.syms.get("#recip", ())}

    def ints(ts):
        out = ZERO
        for t in ts:
            if t.b:
                raise Unsupported("comparison of tensors")
            if Fraction(t.c).denominator != 1:
                raise Unsupported("comparison of tensors")
            p = P.const(int(t.c))
            for b, x in t.f.items():
                if b[0] != "zv" or not x.is_const() or x.cval() < 0:
                    raise Unsupported("comparison of tensors")
                for _ in range(int(x.cval())):
                    p = p * P.var(b[1])
            out = out + p
        return c.n(out)

    parts = []
    for t in X.normalize(toexpr(e)):
        if t.b:
            raise Unsupported("comparison of tensors")
        den = {}
        f = {}
        for b, x in t.f.items():
            if not x.is_const():
                raise Unsupported("comparison of tensors")
            k = int(x.cval())
            if b[0] == "zv" and k < 0:
                den[b] = -k
            elif b[0] == "app" and b[1] in rec and k > 0:
                den[b] = k
            else:
                f[b] = x
        parts.append((X.Term(t.c, f, ()), den))
    full = {}
    for _, d in parts:
        for b, k in d.items():
            full[b] = max(full.get(b, 0), k)
    val = {b: P.var(b[1]) if b[0] == "zv" else ints(rec[b[1]]) for b in full}
    for v in val.values():
        if not c.ge0(c.n(v) - 1):
            raise Unsupported("comparison of tensors: sign of a denominator")
    num = ZERO
    lcm = 1
    for t, _ in parts:
        q = Fraction(t.c).denominator
        lcm = lcm * q // __import__("math").gcd(lcm, q)
    for t, d in parts:
        p = ints([X.Term(t.c * lcm, t.f, ())])
        for b, k in full.items():
            for _ in range(k - d.get(b, 0)):
                p = p * val[b]
        num = num + p
    return c.n(num), full


class Mask:
    """A tensor of truth values."""

    def __init__(self, sh, fn):
        self.sh, self.fn = sh, fn

    def both(self, o, f):
        if not isinstance(o, Mask) or len(o.sh) != len(self.sh) or not all(cur().eq0(a - b) for a, b in zip(self.sh, o.sh)):
            raise Unsupported("masks of different shapes")
        return Mask(self.sh, lambda i: f(self.fn(i), lambda: o.fn(i)))

    def __and__(self, o):
        return self.both(o, lambda p, q: p and q())

    def __or__(self, o):
        return self.both(o, lambda p, q: p or q())

    def __invert__(self):
        return Mask(self.sh, lambda i: not self.fn(i))

    def __bool__(self):
        raise Unsupported("truth value of a tensor")


def compare(a, b, f):
    if not isinstance(b, (Tensor, int, float, Fraction, SymInt)):
        raise Unsupported("comparison of tensors")
    b = as_tensor(b)
    sh = broadcast_dims([a.sh, b.sh])
    fa, fb = freeze(broadcast_view(a, sh)), freeze(broadcast_view(b, sh))
    return Mask(sh, lambda i: f(ratio(toexpr(fa(i)) - toexpr(fb(i)))[0]))


def where(m, a, b):
    if not isinstance(m, Mask):
        raise Unsupported("torch.where")
    a, b = as_tensor(a), as_tensor(b)
    sh = broadcast_dims([m.sh, a.sh, b.sh])
    if len(m.sh) != len(sh) or not all(cur().eq0(p - q) for p, q in zip(m.sh, sh)):
        raise Unsupported("torch.where: broadcast mask")
    fa, fb = freeze(broadcast_view(a, sh)), freeze(broadcast_view(b, sh))
    return Tensor(sh, lambda i: fa(i) if m.fn(tuple(i)) else fb(i), a._real and b._real)


def new_sym(name, sh, real=True, kind=None):
    c = cur()
    k = name
    n = 1
    while k in c.syms:
        n += 1
        k = "%s%d" % (name, n)
    s = Sym(k, len(sh), real, kind, tuple(P_(x) for x in sh))
    c.syms[k] = s
    return s


def sym_tensor(name, sh, real=True, kind=None, arg=False):
    s = new_sym(name, sh, real, kind)
    t = Tensor(s.shape, lambda i: app(s, i), real, st=Storage(s.name if arg else None), sym=s)
    return t


def rec_tensor(s, real=None):
    """Tensor of the entries of a recursion symbol, time from t0."""
    return Tensor(s.shape, lambda i: app(s, i), s.real, sym=s)


def new_rec(name, sh, tpos, rule, init, real=True, window=1, t0=0):
    """A sequence defined by recursion along dimension tpos."""
    s = new_sym(name, sh, real)
    s.tpos = tpos
    s.rule = rule
    s.init = init
    s.t0 = P_(t0)
    s.window = window
    return s


# ------------------------------------------------------------ constructors
def _sizes(sizes):
    if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
        sizes = tuple(sizes[0])
    sh = [P_(s) for s in sizes]
    for s in sh:
        if not cur().ge0(s):
            raise TorchError("negative size %r" % s)
    return sh


def zeros(*sizes, real=True, **k):
    return Tensor(_sizes(sizes), lambda i: ZEROE, real)


def uninit(*sizes, real=True, **k):
    def fn(i):
        raise Unsupported("read of uninitialised data")

    return Tensor(_sizes(sizes), fn, real)


def ones(*sizes, **k):
    return full_(sizes, 1)


def full_(sizes, v, real=True):
    v = toexpr(v)
    return Tensor(_sizes(sizes), lambda i: v, real)


def _dt_real(dtype):
    return dtype is None or not dtype.is_complex


def eye(n, m=None, dtype=None, device=None):
    n = P_(n)
    m = n if m is None else P_(m)
    return Tensor((n, m), lambda i: delta(i[0], i[1]), _dt_real(dtype))


def zeros_like(t, **k):
    return Tensor(t.sh, lambda i: ZEROE, t._real)


def ones_like(t, **k):
    return Tensor(t.sh, lambda i: const(1), t._real)


def empty_like(t, memory_format=None, dtype=None, **k):
    r = uninit(*t.shape, real=t._real if dtype is None else _dt_real(dtype))
    # without a format the strides of t are kept
    r.lay = "contiguous" if memory_format == "contiguous_format" or t.lay == "contiguous" else "like"
    return r


def diag(t, diagonal=0):
    """Square matrix with the vector t on a diagonal."""
    if len(t.sh) != 1 or not isinstance(diagonal, int):
        raise Unsupported("diag of a matrix")
    c = cur()
    n = c.n(t.sh[0] + abs(diagonal))
    f = freeze(t)
    up, dn = P_(max(diagonal, 0)), P_(max(-diagonal, 0))
    return Tensor((n, n), lambda i: f((i[0] - dn,)) if cur().eq0(i[0] - dn - i[1] + up) and cur().ge0(i[0] - dn) and cur().ge0(i[1] - up) else ZEROE, t._real)


def cat(ts, dim=0):
    parts = seq_parts(ts)
    if not parts:
        raise TorchError("cat of nothing")
    first = parts[0][1] if parts[0][0] == "one" else parts[0][2](ZERO)
    d = first.dimn(dim)
    c = cur()
    segs = []  # (length P, fn(idx with local position))
    real = first._real
    for p in parts:
        if p[0] == "one":
            t = p[1]
            if len(t.sh) != len(first.sh):
                if len(t.sh) == 1 and cur().n(t.sh[0]) == ZERO:
                    continue
                raise TorchError("cat: different ranks")
            check_other(first, t, d)
            real = real and t._real
            segs.append((c.n(t.sh[d]), freeze(t)))
        else:
            n, get = p[1], p[2]
            probe = get(c.newvar(c.fresh("z"), 0))
            check_other(first, probe, d)
            real = real and probe._real
            w = c.n(probe.sh[d])

            def seg(i, get=get, w=w):
                q, r = cur().divmod(i[d], w)
                return get(q).at(i[:d] + (r,) + i[d + 1:])

            segs.append((c.n(n) * w, seg))
    tot = ZERO
    offs = []
    for n, f in segs:
        offs.append(tot)
        tot = tot + n

    def fn(i):
        c = cur()
        x = i[d]
        for k in range(len(segs) - 1):
            if not c.ge0(x - c.n(offs[k + 1])):
                return segs[k][1](i[:d] + (c.n(x - offs[k]),) + i[d + 1:])
        k = len(segs) - 1
        return segs[k][1](i[:d] + (c.n(x - offs[k]),) + i[d + 1:])

    return Tensor(first.sh[:d] + (tot,) + first.sh[d + 1:], fn, real)


def check_other(a, b, d):
    for k in range(len(a.sh)):
        if k != d and not cur().eq0(a.sh[k] - b.sh[k]):
            raise TorchError("cat: sizes differ in dimension %d: %r vs %r" % (k, a.sh[k], b.sh[k]))


def stack(ts, dim=0):
    parts = seq_parts(ts)
    if not parts:
        raise TorchError("stack of nothing")
    first = parts[0][1] if parts[0][0] == "one" else parts[0][2](ZERO)
    n = len(first.sh) + 1
    d = dim % n
    out = []
    for p in parts:
        if p[0] == "one":
            out.append(("one", p[1].unsqueeze(d)))
        else:
            out.append(("many", p[1], lambda k, g=p[2]: g(k).unsqueeze(d)))
    return cat(SymList(out), dim=d)


def split(t, sizes, dim=0):
    d = t.dimn(dim)
    if not isinstance(sizes, (list, tuple)):
        raise Unsupported("split by chunk size")
    tot = ZERO
    for s in sizes:
        tot = tot + P_(s)
        if not cur().ge0(P_(s)):
            raise TorchError("negative split size")
    if not cur().eq0(tot - t.sh[d]):
        raise TorchError("split sizes do not add up")
    out = []
    off = ZERO
    for s in sizes:
        s = P_(s)
        out.append(
            t.view_of(t.sh[:d] + (s,) + t.sh[d + 1:], lambda i, off=off: t.at(i[:d] + (i[d] + off,) + i[d + 1:]))
        )
        off = off + s
    return tuple(out)


def same_dtype(what, *ts):
    if len({bool(t._real) for t in ts}) > 1:
        raise TorchError(what + ": expected the same dtype")


def matmul(a, b):
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        return NotImplemented
    if not a.sh or not b.sh:
        raise TorchError("matmul of a scalar")
    same_dtype("matmul", a, b)
    ka = a.sh[-1]
    kb = b.sh[-2] if len(b.sh) > 1 else b.sh[-1]
    c = cur()
    if not c.eq0(ka - kb):
        raise TorchError("matmul: inner sizes %r and %r differ" % (ka, kb))
    K = c.n(ka)
    va, vb = len(a.sh) == 1, len(b.sh) == 1
    ba = a.sh[:-2] if not va else ()
    bb = b.sh[:-2] if not vb else ()
    bs = broadcast_dims([ba, bb]) if (ba or bb) else ()
    A = broadcast_view(a, bs + a.sh[-2:]) if not va else a
    B = broadcast_view(b, bs + b.sh[-2:]) if not vb else b
    fa, fb = freeze(A), freeze(B)
    nb = len(bs)
    sh = bs
    if not va:
        sh = sh + (a.sh[-2],)
    if not vb:
        sh = sh + (b.sh[-1],)

    def fn(i):
        bt = i[:nb]
        pos = nb
        if not va:
            ia = bt + (i[pos],)
            pos += 1
        else:
            ia = ()
        jb = (i[pos],) if not vb else ()
        return Sum(
            ZERO, K, lambda k: fa(ia + (k,)) * fb((bt if not vb else ()) + (k,) + jb)
        )

    return Tensor(sh, fn, a._real and b._real)


def vecdot(x, y, dim=-1):
    if dim != -1:
        raise Unsupported("vecdot dim")
    same_dtype("vecdot", x, y)
    sh = broadcast_dims([x.sh, y.sh])
    xv, yv = broadcast_view(x, sh), broadcast_view(y, sh)
    fx, fy = freeze(xv), freeze(yv)
    K = sh[-1]
    return Tensor(sh[:-1], lambda i: Sum(ZERO, K, lambda k: fx(i + (k,)).conj() * fy(i + (k,))), x._real and y._real)


def addmm(x, a, b, beta=1, alpha=1):
    r = matmul(a, b)
    same_dtype("addmm", x, r)
    x = broadcast_view(x, r.sh)
    return x * beta + r * alpha if (beta, alpha) != (1, 1) else x + r


baddbmm = addmm


def addcmul(x, a, b, value=1):
    r = a * b
    return x + (r * value if value != 1 else r)


def cumprod(t, dim=-1):
    """Cumulative product of scalars, as ratio of formal partial products when the entries are one
    atom (a constant base, or a scalar sequence); otherwise by recursion."""
    d = t.dimn(dim)
    c = cur()
    ft = freeze(t)

    def fn(i):
        # probe: entry at a generic position
        c = cur()
        k = c.fresh("j")
        kp = P.var(k)
        c.bound.append((k, ZERO, i[d] + 1))
        nb = len(c.bound)
        try:
            e = ft(i[:d] + (kp,) + i[d + 1:])
        except C.Split:
            e = None
        finally:
            del c.bound[nb - 1:]
        if e is None or len(e.t) != 1 or e.t[0].b or e.t[0].c != 1:
            raise Unsupported("cumprod of a compound entry")
        f = e.t[0].f
        if not any(_base_has(b, x, k) for b, x in f.items()):
            # constant base: power
            return Expr([X.Term(Fraction(1), {b: x * (i[d] + 1) for b, x in f.items()}, ())])
        # product over k of prod_b b(k)^x: telescoping ratio F(s k + c)/F(s k + c - 1)
        return telescoped(f, k, i[d])

    return Tensor(t.sh, fn, t._real)


def _base_has(b, x, v):
    return any(p.has(v) for p in X.base_polys(b)) or x.has(v)


def telescoped(f, k, last):
    items = [(b, x) for b, x in f.items()]
    if len(items) != 2 or not all(x.is_const() for _, x in items):
        raise Unsupported("cumprod entry")
    (b1, x1), (b2, x2) = items
    if x1.cval() == -1:
        (b1, x1), (b2, x2) = (b2, x2), (b1, x1)
    if (x1.cval(), x2.cval()) != (1, -1):
        raise Unsupported("cumprod entry")
    s0 = {k: ZERO}
    kk = P.var(k)
    # numerator at k, denominator at k: num(k+1) == den(k)  or den(k+1) == num(k)
    at = lambda b, p: X.base_map(b, lambda q: q.subst({k: p}))
    if at(b2, kk + 1) == b1:
        num, den = at(b1, last), at(b2, ZERO)
    elif at(b1, kk + 1) == b2:
        num, den = at(b1, ZERO), at(b2, last)
    else:
        raise Unsupported("cumprod entry")
    if num == den:
        return const(1)
    return Expr([X.Term(Fraction(1), {num: ONE, den: -ONE}, ())])


def roll(t, shifts, dims):
    if isinstance(shifts, (tuple, list)):
        raise Unsupported("roll of several dimensions")
    d = t.dimn(dims)
    n = t.sh[d]

    def fn(i):
        c = cur()
        x = i[d] - shifts
        if shifts <= 0:
            if c.ge0(x - c.n(n)):
                x = x - n
        else:
            if not c.ge0(x):
                x = x + n
        return t.at(i[:d] + (c.n(x),) + i[d + 1:])

    if not isinstance(shifts, int) or abs(shifts) > 1:
        raise Unsupported("roll by more than one")
    return t.copy_of(t.sh, fn)


def pad(t, spec, mode="constant", value=0.0):
    """F.pad: pairs from the last dimension backwards; negative amounts crop."""
    if value is None:
        value = 0.0
    k = len(spec) // 2
    c = cur()
    lo = {}
    hi = {}
    for j in range(k):
        d = len(t.sh) - 1 - j
        l, h = P_(spec[2 * j]), P_(spec[2 * j + 1])
        if l.d or h.d:
            lo[d], hi[d] = l, h
    if not lo:
        return t.clone()
    sh = list(t.sh)
    for d in lo:
        sh[d] = c.n(sh[d] + lo[d] + hi[d])
        if not c.ge0(sh[d]):
            raise TorchError("pad: negative size")
    if mode == "constant":
        val = toexpr(value)
        if PADNAME[0] and value == 0 and t.sym is not None and len(lo) == 1:
            (d,) = lo
            if not lo[d].d and d == getattr(t.sym, "padpos", None) and c.ge0(hi[d]):
                return named_pad(t, d, sh)
        f = freeze(t)

        def fn(i):
            c = cur()
            src = list(i)
            for d in lo:
                x = c.n(i[d] - lo[d])
                if lo[d].d and not c.ge0(x):
                    return val
                if hi[d].d and not c.ge0(c.n(t.sh[d]) - 1 - c.n(x)):
                    return val
                src[d] = c.n(x)
            return f(tuple(src))

        return Tensor(sh, fn, t._real)
    if mode in ("replicate", "reflect", "circular"):
        if len(t.sh) < 2:
            raise TorchError("padding mode %s needs a batch dimension" % mode)
        f = freeze(t)
        if mode == "reflect":
            for d in lo:
                for a in (lo[d], hi[d]):
                    if not c.ge0(c.n(t.sh[d]) - 1 - c.n(a)):
                        raise TorchError("reflect padding larger than the signal")
        if mode == "circular":
            for d in lo:
                for a in (lo[d], hi[d]):
                    if not c.ge0(c.n(t.sh[d]) - c.n(a)):
                        raise TorchError("circular padding larger than the signal")

        def fn2(i):
            c = cur()
            src = list(i)
            for d in lo:
                x = c.n(i[d] - lo[d])
                n = c.n(t.sh[d])
                if not c.ge0(x):
                    x = ZERO if mode == "replicate" else (-x if mode == "reflect" else x + n)
                elif not c.ge0(c.n(n) - 1 - c.n(x)):
                    x = n - 1 if mode == "replicate" else (n * 2 - 2 - x if mode == "reflect" else x - n)
                src[d] = c.n(x)
            return f(tuple(src))

        return Tensor(sh, fn2, t._real)
    raise Unsupported("pad mode %r" % mode)


PADNAME = [True]


def named_pad(t, d, sh):
    """Padding the end of an atomic tensor: name the padded tensor; the original reads through it.
    (Inside the original range both agree; the padding value itself is never needed.)"""
    s = t.sym
    c = cur()
    s2 = Sym(s.name + "+", s.ndim, s.real, s.kind, tuple(sh))
    while s2.name in c.syms:
        s2.name += "+"
    s2.padpos = s.padpos
    c.syms[s2.name] = s2
    import copy

    s1 = copy.copy(s)
    s1.ext = s2
    c.syms[s.name] = s1
    return Tensor(sh, lambda i: app(s2, i), s.real, sym=s2)


def few(n, f):
    """sum over 0 <= k < n, written out when n is a small number."""
    n = cur().n(n)
    if n.is_const() and n.cval() <= 8:
        r = ZEROE
        for k in range(int(n.cval())):
            r = r + toexpr(f(P.const(k)))
        return r
    return Sum(ZERO, n, f)


def conv1d(inp, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if stride != 1 or dilation != 1 or bias is not None:
        raise Unsupported("conv1d options")
    if padding != 0:
        inp = pad(inp, (padding, padding))
    c = cur()
    if len(inp.sh) == 2:
        raise Unsupported("unbatched conv1d")
    Bn, Cin, L = inp.sh
    Cout, Cg, K = w.sh
    g = P_(groups)
    if not c.ge0(c.n(L) - c.n(K)):
        raise TorchError("conv1d: kernel longer than the input")
    if not c.eq0(Cin - Cg * g):
        raise TorchError("conv1d: channels")
    fi, fw = freeze(inp), freeze(w)
    sh = (Bn, Cout, c.n(L) - c.n(K) + 1)
    if c.n(g) == ONE:
        fn = lambda i: Sum(
            ZERO, c.n(Cin), lambda ch: few(K, lambda k: fi((i[0], ch, i[2] + k)) * fw((i[1], ch, k)))
        )
    elif c.n(Cg) == ONE and c.eq0(Cout - g):
        fn = lambda i: few(K, lambda k: fi((i[0], i[1], i[2] + k)) * fw((i[1], ZERO, k)))
    else:
        raise Unsupported("grouped conv1d")
    return Tensor(sh, fn, inp._real and w._real)


def conv_transpose1d(inp, w, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
    if stride != 1 or dilation != 1 or bias is not None or padding != 0 or output_padding != 0:
        raise Unsupported("conv_transpose1d options")
    c = cur()
    Bn, Cin, L = inp.sh
    Cin2, Cog, K = w.sh
    g = P_(groups)
    if not c.eq0(Cin - Cin2):
        raise TorchError("conv_transpose1d: channels")
    if not (c.n(Cog) == ONE and c.eq0(Cin - g)):
        raise Unsupported("conv_transpose1d groups")
    fi, fw = freeze(inp), freeze(w)

    def fn(i):
        # out[n] = sum_k w[k] x[n - k], 0 <= n - k < L
        def body(k):
            c = cur()
            x = i[2] - k
            if not c.ge0(x):
                return ZEROE
            if not c.ge0(c.n(L) - 1 - x):
                return ZEROE
            return fi((i[0], i[1], x)) * fw((i[1], ZERO, k))

        return Sum(ZERO, c.n(K), body)

    return Tensor((Bn, Cin, c.n(L) + c.n(K) - 1), fn, inp._real and w._real)


def vander(x, N=None, increasing=False):
    if len(x.sh) != 1 or N is not None or increasing:
        raise TorchError("vander needs a vector")
    n = x.sh[0]
    f = freeze(x)

    def fn(i):
        return int_power(f((i[0],)), n - 1 - i[1])

    return Tensor((n, n), fn, x._real)


def int_power(e, p):
    p = cur().n(topoly(p))
    ts = e.t
    if len(ts) == 1 and not ts[0].b:
        t = ts[0]
        if t.c == 1 or p.is_const():
            return Expr([X.Term(t.c ** p.cval() if p.is_const() else Fraction(1), {b: x * p for b, x in t.f.items() if (x * p).d}, ())])
    if p.is_const() and p.cval() >= 0:
        r = const(1)
        for _ in range(p.cval()):
            r = r * e
        return r
    raise Unsupported("symbolic power of a compound value")


def broadcast_shapes(*shapes):
    return Size(mk(s) for s in broadcast_dims([tuple(P_(x) for x in s) for s in shapes])) if any(len(s) for s in shapes) else Size()


def arange(*a, device=None, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if isinstance(st, C.SymRatio):
        if st.num != 1 or not all(isinstance(v, int) for v in (lo, hi)):
            raise Unsupported("arange step")
        m = P_(st.den)
        n = (hi - lo) * m
        inv = inverse(X.int_expr(m))
        return Tensor((n,), lambda i: (X.int_expr_in(i[0]) * inv + lo), True)
    if st not in (1, -1):
        raise Unsupported("arange step")
    lo, hi = P_(lo), P_(hi)
    n = hi - lo if st == 1 else lo - hi
    if not cur().ge0(n):
        n = ZERO
    t = Tensor((n,), lambda i: X.int_expr_in(lo + i[0] * st), True)
    t.intfn = lambda i: lo + i[0] * st
    return t
