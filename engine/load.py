"""Mechanical loading of /repo's Python modules over the symbolic tensor layer.

What the loading changes in the source (and nothing else):
  - type annotations and docstrings are dropped;
  - `for` statements (without break/continue/return/yield) become a call of the loop contract
    runner `__for__`, with the unchanged body as a local function of the variables it assigns;
  - `a[i] op= v` becomes `a[i] = a[i] op v` (same object, same in-place effect);
  - `x, *y = e` becomes an unpacking of the same e;
  - imports and the builtins range/list/len/zip/enumerate/isinstance/reversed/tuple are resolved to
    versions that also accept symbolic sizes.
"""
import ast
import builtins
import itertools
import os
import types
import functools
from poly import P, ZERO, ONE, topoly
import ctx as C
from ctx import cur, mk, SymInt, Unsupported, Violated
import tens as T
import expr as X

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ rewriting
class _Names(ast.NodeVisitor):
    def __init__(self):
        self.stored = []
        self.bad = False

    def add(self, n):
        if n not in self.stored:
            self.stored.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.add(n.id)

    def visit_AugAssign(self, n):
        t = n.target
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        if isinstance(t, ast.Name):
            self.add(t.id)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store):
            t = n.value
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                t = t.value
            if isinstance(t, ast.Name):
                self.add(t.id)
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.attr in ("append", "extend", "insert", "pop") or (f.attr.endswith("_") and not f.attr.startswith("_")):
                self.add(f.value.id)
        elif isinstance(f, ast.Name) and f.id == "__augsub__":
            t = n.args[0]
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                t = t.value
            if isinstance(t, ast.Name):
                self.add(t.id)
        self.generic_visit(n)

    def visit_Break(self, n):
        self.bad = True

    visit_Continue = visit_Return = visit_Yield = visit_YieldFrom = visit_Break

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_Lambda(self, n):
        pass

    def visit_FunctionDef(self, n):
        self.add(n.name)


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.depth = 0

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [n.args.vararg, n.args.kwarg]:
            if a is not None:
                a.annotation = None
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        self.generic_visit(n)
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Subscript):
            # (base, key evaluated once) base[key] = snapshot(base)[key] op value
            return ast.copy_location(
                ast.Expr(
                    ast.Call(
                        ast.Name("__augsub__", ast.Load()),
                        [_load(n.target.value), _slice(n.target.slice), ast.Constant(type(n.op).__name__), n.value],
                        [],
                    )
                ),
                n,
            )
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)):
            el = n.targets[0].elts
            st = [k for k, e in enumerate(el) if isinstance(e, ast.Starred)]
            if st:
                k = st[0]
                el[k] = el[k].value
                n.value = ast.Call(
                    ast.Name("__unpack__", ast.Load()), [n.value, ast.Constant(k), ast.Constant(len(el) - k - 1)], []
                )
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        v = _Names()
        for s in n.body:
            v.visit(s)
        tn = _Names()
        tn.visit(n.target)
        if v.bad or n.orelse or self.depth == 0:
            return n
        self.k += 1
        fname = "__body%d" % self.k
        names = [x for x in v.stored if x not in tn.stored]
        args = ["__it%d" % self.k] + names
        body = [ast.Assign([n.target], ast.Name("__it%d" % self.k, ast.Load()))] + n.body
        body.append(
            ast.Return(
                ast.Call(
                    ast.Name("__pack__", ast.Load()),
                    [ast.Lambda(_noargs(), ast.Name(x, ast.Load())) for x in names],
                    [],
                )
            )
        )
        fd = ast.FunctionDef(
            name=fname,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body,
            decorator_list=[],
        )
        getters = ast.Call(
            ast.Name("__pack__", ast.Load()), [ast.Lambda(_noargs(), ast.Name(x, ast.Load())) for x in names], []
        )
        call = ast.Call(
            ast.Name("__for__", ast.Load()),
            [n.iter, ast.Name(fname, ast.Load()), ast.Constant(tuple(names)), getters],
            [],
        )
        if names:
            res = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], call)
        else:
            res = ast.Expr(call)
        return [ast.copy_location(fd, n), ast.copy_location(res, n)]


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def _load(e):
    e = ast.parse(ast.unparse(e), mode="eval").body
    return e


def _slice(s):
    """A subscript as an expression building the key."""
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_slice(x) for x in s.elts], ast.Load())
    if isinstance(s, ast.Slice):
        f = lambda x: x if x is not None else ast.Constant(None)
        return ast.Call(ast.Name("slice", ast.Load()), [f(s.lower), f(s.upper), f(s.step)], [])
    return s


# ------------------------------------------------------------------ run time
class Unbound:
    def __repr__(self):
        return "unbound"


UNBOUND = Unbound()


def pack(*fs):
    out = []
    for f in fs:
        try:
            out.append(f())
        except (NameError, UnboundLocalError):
            out.append(UNBOUND)
    return tuple(out)


def augsub(base, key, op, val):
    old = base.snapshot() if isinstance(base, T.Tensor) else base
    a = old[key]
    f = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b}.get(op)
    if f is None:
        raise Unsupported("augmented assignment %s" % op)
    base[key] = f(a, val)


def unpack(v, before, after):
    if isinstance(v, Factors):
        if before != 1 or after:
            raise Unsupported("unpacking of factors")
        return v.head(), v.tail()
    v = list(v)
    if len(v) < before + after:
        raise ValueError("not enough values to unpack")
    end = len(v) - after
    return tuple(v[:before]) + (v[before:end],) + tuple(v[end:])


class Factors:
    """The contract of sympy.factorint(n, multiple=True): integers >= 2 whose product is n."""

    def __init__(self, n):
        self.n = n

    def length_zero(self):
        return cur().eq0(self.n.p - 1 if isinstance(self.n, SymInt) else P.const(self.n - 1))

    def head(self):
        c = cur()
        n = topoly(self.n)
        f = c.newvar(c.fresh("fac"), 2)
        q = c.newvar(c.fresh("cof"), 1)
        c.add_eq(n - f * q) if _has_unit(c.n(n)) else _eq_prod(c, n, f, q)
        self._f, self._q = f, q
        return mk(c.n(f))

    def tail(self):
        return Factors(mk(cur().n(self._q)))


def _has_unit(p):
    return any(p.lin_coef(v) in (1, -1) for v in p.vars())


def _eq_prod(c, n, f, q):
    n = c.n(n)
    if n.is_const():
        # concrete length: pick any factorisation (smallest prime factor first, as sympy does)
        m = n.cval()
        d = 2
        while m % d:
            d += 1
        c.add_eq(f - d)
        c.add_eq(q - m // d)
        return
    c.add_fact(n - f * q)
    c.add_fact(f * q - n)


def sym_len(x):
    if isinstance(x, T.SymSeq):
        return mk(x.n)
    if isinstance(x, T.SymRange):
        return mk(x.hi - x.lo)
    if isinstance(x, Factors):
        if x.length_zero():
            return 0
        c = cur()
        return SymInt(c.newvar(c.fresh("nf"), 1))
    if isinstance(x, T.SymList):
        n = ZERO
        for s in x.segs:
            n = n + (ONE if s[0] == "one" else topoly(s[1]))
        return mk(n)
    if isinstance(x, T.Tensor):
        return mk(x.sh[0])
    return builtins.len(x)


def sym_range(*a):
    if builtins.all(isinstance(v, builtins.int) for v in a):
        return builtins.range(*a)
    conc = []
    for v in a:
        p = T.P_(v)
        if not p.is_const():
            break
        conc.append(p.cval())
    else:
        return builtins.range(*conc)
    if builtins.len(a) == 1:
        return T.SymRange(0, a[0])
    if builtins.len(a) == 2 or a[2] == 1:
        return T.SymRange(a[0], a[1])
    raise Unsupported("range step")


def is_sym(x):
    return isinstance(x, (T.SymSeq, T.SymRange, T.SymList))


def as_seq(x):
    if isinstance(x, T.SymRange):
        return x.seq()
    if isinstance(x, T.SymSeq):
        return x
    if isinstance(x, T.SymList):
        if builtins.len(x.segs) == 1 and x.segs[0][0] == "many":
            return T.SymSeq(x.segs[0][1], x.segs[0][2])
        if builtins.all(s[0] == "one" for s in x.segs):
            return [s[1] for s in x.segs]
    return x


def sym_list(x=()):
    if isinstance(x, (T.SymRange, T.SymSeq, T.SymList, Factors)):
        return x
    return builtins.list(x)


def sym_zip(*xs, strict=False):
    xs = [as_seq(x) for x in xs]
    xs = [x.unbind(0) if isinstance(x, T.Tensor) else x for x in xs]
    if not builtins.any(is_sym(x) for x in xs):
        return builtins.list(builtins.zip(*xs))
    n = None
    for x in xs:
        m = T.P_(sym_len(x))
        if n is None or not cur().ge0(m - n):
            n = m
    gets = [(x.get if isinstance(x, T.SymSeq) else (lambda k, x=x: x[cur().n(k).cval()])) for x in xs]
    return T.SymSeq(n, lambda k: tuple(g(k) for g in gets))


def sym_enumerate(x, start=0):
    x = as_seq(x)
    if isinstance(x, T.SymSeq):
        return T.SymSeq(x.n, lambda k: (mk(k + topoly(start)), x.get(k)))
    return builtins.enumerate(x, start)


def sym_reversed(x):
    x = as_seq(x)
    if isinstance(x, T.SymSeq):
        return T.SymSeq(x.n, lambda k: x.get(cur().n(x.n) - 1 - k))
    return builtins.reversed(x)


def sym_isinstance(x, t):
    if isinstance(x, SymInt):
        if t is builtins.int:
            return True
        if builtins.isinstance(t, builtins.tuple) and builtins.int in t:
            return True
    return builtins.isinstance(x, t)


def clone_like(t):
    n = T.Tensor(t.sh, T.freeze(t), t._real)
    n.st.arg = t.st.arg
    return n


def same_shape(a, b):
    c = cur()
    return len(a.sh) == len(b.sh) and all(c.n(p) == c.n(q) or c.eq0(p - q) for p, q in zip(a.sh, b.sh))


def run_for(it, body, names, vals):
    """The loop rule: variables assigned in the body become sequences indexed by the iteration,
    defined by the body; lists that are appended to become the list of appended values."""
    it = as_seq(it)
    if isinstance(it, T.Tensor):
        it = it.unbind(0)
    if isinstance(it, T.SymSeq) and cur().n(it.n).is_const():
        it = [it.get(P.const(k)) for k in range(cur().n(it.n).cval())]
    if not isinstance(it, T.SymSeq):
        vals = list(vals)
        for v in it:
            vals = list(body(v, *vals))
        return tuple(vals)
    c = cur()
    if not c.ge0(it.n - 1):
        return tuple(vals)
    n = c.n(it.n)
    if n.is_const():
        return run_for([it.get(P.const(k)) for k in range(n.cval())], body, names, vals)
    start = 0
    peeled = list(vals)
    # peel iterations until the shapes of the carried tensors are stable
    for _ in range(3):
        probe_in = [clone_like(v) if isinstance(v, T.Tensor) else (Appends() if isinstance(v, list) else v) for v in peeled]
        probe = body(it.get(P.const(start)), *probe_in)
        ok = True
        for v, w in zip(peeled, probe):
            if isinstance(w, T.Tensor):
                if not isinstance(v, T.Tensor):
                    ok = isinstance(v, Unbound) and ok and False
                elif not same_shape(v, w) or (v._real and not w._real):
                    ok = False
            elif isinstance(w, (Appends, list, T.SymList)):
                pass
        if ok:
            break
        # really execute this iteration
        real_in = [v if not isinstance(v, Appends) else v for v in peeled]
        peeled = list(body(it.get(P.const(start)), *real_in))
        start += 1
        n = cur().n(it.n)
        if not cur().ge0(n - start - 1):
            return tuple(peeled)
        if not isinstance(n, P):
            break
    else:
        raise Unsupported("loop state does not stabilise")
    n = cur().n(it.n)
    carried = [k for k, v in enumerate(peeled) if isinstance(v, T.Tensor)]
    for k, v in enumerate(peeled):
        if k in carried or isinstance(v, (list, T.SymList, Unbound)):
            continue
        if not (v is None or isinstance(v, (int, float, str, bool))):
            raise Unsupported("loop variable %s" % names[k])
    syms = {}
    c = cur()
    for k in carried:
        v = peeled[k]
        s = T.new_rec(names[k], tuple(v.sh) + (n,), len(v.sh), None, None, real=v._real, t0=start)
        syms[k] = s

    def state(t):
        """Carried values after iteration t (t = start - 1: before)."""
        out = []
        for k, v in enumerate(peeled):
            if k in syms:
                s = syms[k]
                tt = T.Tensor(v.sh, lambda i, s=s: X.app(s, tuple(i) + (t,)), v._real)
                tt.st.arg = v.st.arg
                out.append(tt)
            elif isinstance(v, (list, T.SymList)):
                out.append(Appends())
            else:
                out.append(v)
        return out

    memo = {}

    s0, m0 = T.next_serial(), len(T.MUTLOG)

    def run_body(t):
        if any(x < s0 for x in T.MUTLOG[m0:]):
            raise Unsupported("a value used by a loop is modified after the loop")
        key = (cur(), cur().n(t), len(cur().facts), tuple(cur().bound))
        ins = state(t - 1)
        outs = body(it.get(cur().n(t)), *ins)
        for k, (a, b) in enumerate(zip(peeled, outs)):
            if k in syms:
                if not isinstance(b, T.Tensor) or not same_shape(a, b):
                    raise Unsupported("loop state changes shape")
            elif not isinstance(b, (Appends,)) and not isinstance(a, Unbound) and b is not a and not (
                isinstance(a, (int, float, str)) and a == b
            ):
                raise Unsupported("loop variable %s changes" % names[k])
        return outs

    for k, s in syms.items():
        v0 = peeled[k]
        f0 = T.freeze(v0)
        s.rule = lambda idx, k=k: run_body(idx[-1])[k].at(idx[:-1])
        s.init = lambda idx, f0=f0: f0(tuple(idx[:-1]))
    # lists
    final = state(n - 1)
    probe = run_body(P.const(start))
    res = []
    for k, v in enumerate(peeled):
        if isinstance(probe[k], Appends):
            items = probe[k].items
            if isinstance(v, Unbound):
                raise Unsupported("list built in a loop")
            base = v if isinstance(v, T.SymList) else T.SymList([("one", x) for x in v])
            if not items:
                res.append(v)
                continue
            if len(items) != 1:
                raise Unsupported("several appends per iteration")
            x = items[0]
            who = next((j for j in syms if probe[j] is x), None)
            if x.st.version > 0 or (who is not None and probe[who].mutated()):
                raise Unsupported("a stored loop value is modified in place")
            if who is not None:
                get = lambda t, who=who: state(t)[who]
            else:
                get = lambda t, k=k: run_body(t)[k].items[0]
            g2 = (lambda q, get=get: get(q + start)) if start else get
            res.append(T.SymList(list(base.segs) + [("many", n - start, g2)]))
        elif k in syms:
            t = final[k]
            t.owner = True
            res.append(t)
        elif isinstance(v, Unbound) and isinstance(probe[k], T.Tensor):
            res.append(run_body(n - 1)[k])
        else:
            res.append(v)
    return tuple(res)


class Appends:
    """Stand-in for a list inside a loop body: only appending is allowed."""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def __getattr__(self, n):
        raise Unsupported("list.%s in a loop" % n)


def accumulate(xs, f=None):
    xs = as_seq(xs)
    if not isinstance(xs, T.SymSeq):
        return list(itertools.accumulate(xs, f))
    c = cur()
    if not c.ge0(xs.n - 1):
        return []
    n = c.n(xs.n)
    if n.is_const():
        return list(itertools.accumulate([xs.get(P.const(k)) for k in range(n.cval())], f))
    first = xs.get(ZERO)
    sh = first.sh
    s = T.new_rec("acc", tuple(sh) + (n,), len(sh), None, None, real=first._real, t0=1)
    at = lambda t: T.Tensor(sh, lambda i: X.app(s, tuple(i) + (t,)), first._real)
    f0 = T.freeze(first)
    s.init = lambda idx: f0(tuple(idx[:-1]))

    def rule(idx):
        r = f(at(idx[-1] - 1), xs.get(idx[-1]))
        if not same_shape(r, first):
            raise Unsupported("accumulate changes the shape")
        return r.at(tuple(idx[:-1]))

    s.rule = rule
    ACC.append(s)
    h = ACC_HINT[0]
    if h is not None:
        h(s, xs, first)
    return T.SymList([("many", n, at)])


ACC = []
ACC_HINT = [None]


def sreduce(f, xs, *init):
    xs = as_seq(xs)
    if not isinstance(xs, T.SymSeq):
        return functools.reduce(f, xs, *init)
    # ((x0 f x1) f x2)...: a loop carrying the accumulator
    if init:
        acc = init[0]
        seq = xs
    else:
        if not cur().ge0(xs.n - 1):
            raise TypeError("reduce() of empty iterable with no initial value")
        acc = xs.get(ZERO)
        seq = T.SymSeq(cur().n(xs.n) - 1, lambda k: xs.get(k + 1))
    return run_for(seq, lambda v, a: (f(a, v),), ("acc",), (acc,))[0]


# ------------------------------------------------------------------ shim modules
class NS:
    def __init__(self, name, **k):
        self.__dict__.update(k)
        self.__dict__["_nsname"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self._nsname, n))


class Function:
    """torch.autograd.Function: apply is forward (gradient rules are verified on their own)."""

    @classmethod
    def apply(cls, *args):
        h = APPLY.get(cls.__name__)
        if h is not None:
            return h(cls, *args)
        return cls.forward(*args)


APPLY = {}


class _Op:
    """A registered operator: its contract is looked up when it is called."""

    def __init__(self, table, name):
        self.table, self.name = table, name
        self.default = self

    def __call__(self, *a, **k):
        if self.name not in self.table:
            raise Unsupported("torch.ops.philtorch.%s" % self.name)
        return self.table[self.name](*a, **k)


class _Ops:
    def __init__(self):
        self.table = {}

    def __getattr__(self, n):
        t = self.__dict__["table"]
        if n.startswith("__"):
            raise AttributeError(n)
        return _Op(t, n)


OPS = _Ops()


def solve(A, Bm, **k):
    h = SOLVE[0]
    if h is None:
        raise Unsupported("torch.linalg.solve")
    return h(A, Bm)


SOLVE = [None]
INV = [None]
EIGVALS = [None]


def _hook(cell, name):
    def f(*a, **k):
        if cell[0] is None:
            raise Unsupported(name)
        return cell[0](*a, **k)

    return f


def tensor(v, **k):
    if isinstance(v, T.Tensor):
        return v
    if isinstance(v, (int, float, SymInt)):
        h = CONST[0]
        if isinstance(v, float) and h is not None:
            e = h(v)
            if e is not None:
                return T.Tensor((), lambda i: e, True)
        return T.as_tensor(v)
    if isinstance(v, list) and not v:
        return T.Tensor((T.P_(0),), lambda i: T.ZEROE, True)
    raise Unsupported("torch.tensor(...)")


CONST = [None]


def check(cond, msg=None):
    if not cond:
        raise T.TorchError("torch._check: %s" % (msg() if callable(msg) else msg))


class _Fakes:
    def __init__(self):
        self.table = {}


FAKES = {}


def register_fake(name, *a, **k):
    def deco(f):
        FAKES[name] = f
        return f

    return deco


AUTOGRAD = {}


def register_autograd(name, backward, setup_context=None, **k):
    AUTOGRAD[name] = (backward, setup_context)


def promote(*a):
    raise Unsupported("promote_types")


def make_torch():
    lin = NS(
        "torch.linalg", vecdot=T.vecdot, solve=solve, inv=_hook(INV, "torch.linalg.inv"),
        eigvals=_hook(EIGVALS, "torch.linalg.eigvals"), matmul=T.matmul,
    )
    F = NS("F", pad=T.pad, conv1d=T.conv1d, conv_transpose1d=T.conv_transpose1d)
    dt = lambda *a, dtype=None, real=True, **k: dict(real=T._dt_real(dtype))
    torch = NS(
        "torch",
        Tensor=T.Tensor, cat=T.cat, concat=T.cat, stack=T.stack, matmul=T.matmul, addmm=T.addmm, baddbmm=T.baddbmm,
        bmm=T.matmul, mm=T.matmul, mv=T.matmul, addcmul=T.addcmul, eye=T.eye, diag=T.diag, flip=lambda t, d: t.flip(d),
        zeros=lambda *s, dtype=None, device=None: T.zeros(*s, real=T._dt_real(dtype)),
        promote_types=lambda p, q: T.RDT if not (p.is_complex or q.is_complex) else T.CDT,
        ones=lambda *s, dtype=None, device=None: T.full_(s, 1, real=T._dt_real(dtype)),
        zeros_like=T.zeros_like, ones_like=T.ones_like, empty_like=T.empty_like, cumprod=T.cumprod, split=T.split,
        split_with_sizes=T.split, roll=lambda t, shifts, dims: T.roll(t, shifts, dims), vander=T.vander,
        arange=T.arange, broadcast_shapes=T.broadcast_shapes, squeeze=lambda t, d=None: t.squeeze(d),
        unsqueeze=lambda t, d: t.unsqueeze(d), tensor=tensor, _check=check, linalg=lin, vecdot=T.vecdot,
        transpose=lambda t, a, b: t.transpose(a, b), einsum=_hook([None], "einsum"),
        add=lambda a, b, alpha=1: T.as_tensor(a).add(b, alpha), sub=lambda a, b: T.as_tensor(a) - b, mul=lambda a, b: T.as_tensor(a) * b,
        neg=lambda a: -a, contiguous_format="contiguous_format", preserve_format="preserve_format", float32="f32", complex64="c64",
        sum=lambda t, *a, **k: t.sum(*a, **k), conj=lambda t: t.conj(), flatten=lambda t, *a: t.flatten(*a),
        unbind=lambda t, dim=0: t.unbind(dim), reshape=lambda t, s: t.reshape(s), empty=lambda *s, **k: T.uninit(*s),
        full=lambda s, v, **k: T.full_((s,), v), broadcast_to=lambda t, s: t.broadcast_to(s), is_complex=lambda t: t.is_complex(),
        broadcast_tensors=lambda *ts: tuple(t.expand(*T.broadcast_shapes(*[u.shape for u in ts])) for t in ts),
        where=T.where, abs=lambda t: t.abs(), pow=lambda t, e: t ** e,
        dot=T.matmul, permute=lambda t, p: t.permute(p), clone=lambda t: t.clone(), reciprocal=lambda t: t.reciprocal(), vstack=vstack,
    )
    nn = NS("torch.nn", functional=F)
    torch.nn = nn
    torch.functional = F
    auto = NS("torch.autograd", Function=Function)
    torch.autograd = auto
    torch.ops = NS("torch.ops", philtorch=OPS)
    torch.library = NS("torch.library", register_fake=register_fake, register_autograd=register_autograd)
    return torch, F, nn, auto


def vstack(ts):
    return T.cat([t.unsqueeze(0) if t.dim() == 1 else t for t in ts], dim=0)


class AnyType:
    def __getitem__(self, k):
        return self

    def __getattr__(self, k):
        return self


def _factorint(n, multiple=False):
    if not multiple:
        raise Unsupported("factorint")
    if isinstance(n, int) or T.P_(n).is_const():
        n = T.P_(n).cval()
        out = []
        d = 2
        while n > 1:
            while n % d == 0:
                out.append(d)
                n //= d
            d += 1
        return out
    return Factors(n)


class Loader:
    """A fresh copy of the package's modules in one configuration."""

    def __init__(self, ext=True, lpc=None, overrides=None):
        self.ext = ext
        self.mods = {}
        self.torch, self.F, self.nn, self.auto = make_torch()
        self.lpc = lpc
        self.asserts = []

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split(".")[1:]
        path = os.path.join(REPO, "philtorch", *rel)
        if os.path.isdir(path):
            file, pkg = os.path.join(path, "__init__.py"), name
        else:
            file, pkg = path + ".py", name.rsplit(".", 1)[0]
        if not os.path.exists(file):
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = file
        m.__package__ = pkg
        self.mods[name] = m
        tree = transform(file)
        b = dict(vars(builtins))
        b.update(
            __import__=self._import(m), range=sym_range, list=sym_list, len=sym_len, zip=sym_zip, enumerate=sym_enumerate,
            isinstance=sym_isinstance, reversed=sym_reversed,
        )
        m.__dict__["__builtins__"] = b
        m.__dict__.update(__for__=run_for, __pack__=pack, __augsub__=augsub, __unpack__=unpack)
        exec(compile(tree, file, "exec"), m.__dict__)
        return m

    def _import(self, mod):
        table = {
            "torch": self.torch, "torch.nn": self.nn, "torch.nn.functional": self.F, "torch.autograd": self.auto,
            "typing": AnyType(), "functools": NS("functools", partial=functools.partial, reduce=sreduce),
            "itertools": NS("itertools", accumulate=accumulate, chain=itertools.chain, starmap=itertools.starmap),
            "sympy.ntheory": NS("sympy.ntheory", factorint=_factorint),
            "warnings": NS("warnings", warn=lambda *a, **k: None), "math": __import__("math"), "pathlib": NS("pathlib", Path=FakePath),
            "collections.abc": AnyType(), "__future__": __import__("__future__"),
        }
        table["torchlpc"] = NS("torchlpc", sample_wise_lpc=self.lpc if self.lpc is not None else _Op(OPS.table, "sample_wise_lpc"))

        def imp(name, globs=None, locs=None, fromlist=(), level=0):
            if level:
                base = mod.__package__.split(".")
                base = base[: len(base) - (level - 1)]
                full = ".".join(base + ([name] if name else []))
                if fromlist:
                    if not name and "_C" in fromlist:
                        if not self.ext:
                            raise ImportError("_C")
                        return types.SimpleNamespace(_C=object())
                    if name == "_helion":
                        raise ImportError("_helion")
                    m = self.module(full)
                    for f in fromlist:
                        if f != "*" and not hasattr(m, f):
                            try:
                                setattr(m, f, self.module(full + "." + f))
                            except ImportError:
                                pass
                    return m
                return self.module(full)
            if name.startswith("philtorch"):
                return self.module(name)
            if name in table:
                if not fromlist and "." in name:
                    return table[name.split(".")[0]]
                return table[name]
            if name.split(".")[0] in ("pararnn", "helion", "triton"):
                raise ImportError(name)
            raise Unsupported("import of %s" % name)

        return imp


class FakePath:
    def __init__(self, *a):
        pass

    parent = property(lambda s: s)

    def joinpath(self, *a):
        return self

    def read_text(self):
        return "0"


_TREES = {}


def transform(file):
    if file not in _TREES:
        tree = ast.parse(open(file).read(), file)
        tree = Rewrite().visit(tree)
        ast.fix_missing_locations(tree)
        _TREES[file] = tree
    return _TREES[file]
