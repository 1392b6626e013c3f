"""Engine 2: the C++ kernels. clang resolves names, types and template instances of the real source files (against
declarations only, cstub/); the syntax tree is executed on symbolic tensors and sizes with the semantics of engine 1.
Loops are summarised for all iterations: independent iterations by re-execution at the iteration that writes the entry,
loop-carried reads by an invariant supplied by the contract and proved inductive. Every access is an obligation."""
import json
import os
import re
import subprocess
import tempfile
from poly import P, ZERO, ONE, topoly
import ctx as C
from ctx import cur, mk, SymInt, Unsupported, Violated, Infeasible, explore, Split, DivSplit
import expr as X
from expr import app, toexpr, const, Sum, ZEROE
import tens as T
from tens import Tensor, TorchError
import spec
from spec import Definite, Refuted, Unproved

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TUS = {}


class TU:
    """One translation unit."""

    def __init__(self, path):
        self.path = path
        src = open(path).read()
        inc = "".join("#include %s\n" % m for m in re.findall(r"^\s*#\s*include\s+(<[^>]+>)", src, re.M))
        local = re.findall(r'^\s*#\s*include\s+"([^"]+)"', src, re.M)
        with tempfile.TemporaryDirectory(prefix="cxx-") as d:
            w = os.path.join(d, "w.cpp")
            open(w, "w").write("#include <torch/torch.h>\n" + inc + "namespace vfy__ {\n#include \"%s\"\n}\n" % path)
            p = subprocess.run(["clang++", "-std=c++20", "-fopenmp", "-fsyntax-only", "-Wno-everything", "-I", os.path.join(HERE, "cstub"), "-I", os.path.dirname(path),
                                "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=vfy__", w], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise Unsupported("clang does not resolve %s: %s" % (os.path.basename(path), p.stderr[:400]))
        dec, out, pos = json.JSONDecoder(), [], 0
        while True:
            k = p.stdout.find("{", pos)
            if k < 0:
                break
            o, pos = dec.raw_decode(p.stdout, k)
            out.append(o)
        self.fns = {}
        self.roots = out
        self.libs = []
        self.line = [0]
        for o in out:
            self.index(o)

    def index(self, n):
        if isinstance(n, dict):
            if n.get("kind") in ("FunctionDecl", "CXXMethodDecl") and "id" in n:
                self.fns[n["id"]] = n
                if n.get("name", "").startswith(("verif_lib_", "verif_def_")):
                    self.libs.append(n)
            for c in n.get("inner", ()):
                self.index(c)

    def registrations(self):
        """operator name -> function declaration, per library key."""
        out = []
        for f in self.libs:
            for call in find(f, "CXXMemberCallExpr"):
                strs = [ast_str(s) for s in find(call, "StringLiteral")]
                me = call["inner"][0]
                if me.get("name") == "impl" and strs:
                    refs = [r["referencedDecl"]["id"] for r in find(call, "DeclRefExpr") if r.get("referencedDecl", {}).get("kind") == "FunctionDecl"]
                    out.append((f["name"], strs[0].split("::")[-1], self.fns.get(refs[-1]) if refs else None))
                elif me.get("name") == "def" and strs:
                    out.append((f["name"], strs[0], None))
        return out


def find(n, kind):
    if isinstance(n, dict):
        if n.get("kind") == kind:
            yield n
        for c in n.get("inner", ()):
            yield from find(c, kind)


def ast_str(s):
    v = s.get("value", '""')
    try:
        return json.loads(v)
    except Exception:
        return v.strip('"')


def units():
    d = os.path.join(REPO, "philtorch", "csrc")
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp"):
            p = os.path.join(d, f)
            if p not in TUS:
                try:
                    TUS[p] = TU(p)
                except Unsupported as e:
                    TUS[p] = e
            yield TUS[p]


def operator(name):
    """The function registered for an operator on the CPU."""
    hits, broken = [], []
    for u in units():
        if isinstance(u, Unsupported):
            broken.append(u)
            continue
        for lib, op, f in u.registrations():
            if lib.startswith("verif_lib_philtorch_CPU_") and op == name:
                hits.append((u, f))
    if len(hits) == 1 and hits[0][1] is not None:
        return hits[0]
    if broken:
        raise broken[0]
    if not hits:
        raise Refuted("operator %s has no CPU implementation" % name)
    raise Unsupported("registrations of %s" % name)


# ------------------------------------------------------------------ values
class Ref:
    """An lvalue."""


class VarRef(Ref):
    def __init__(self, frame, id):
        self.frame, self.id = frame, id


class MemRef(Ref):
    def __init__(self, buf, off):
        self.buf, self.off = buf, off


class ElemRef(Ref):
    def __init__(self, arr, k):
        self.arr, self.k = arr, k


class Ptr:
    def __init__(self, buf, off, ro=False):
        self.buf, self.off, self.ro = buf, off, ro


class Lam:
    def __init__(self, node, env, refs):
        self.node, self.env, self.byref = node, env, refs


class CT:
    """at::Tensor: value, what is known of its layout, and whether it may share memory with an operand."""

    def __init__(self, t, contig, shares, dtype):
        self.t, self.contig, self.shares, self.dtype = t, contig, shares, dtype
        self.buf = None
        self.derived = False


class Buffer:
    def __init__(self, name, sh, mem, writable):
        self.name, self.sh, self.mem, self.writable = name, tuple(sh), mem, writable


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Continue(Exception):
    pass


class Break(Exception):
    pass


class Sizes(tuple):
    pass


NOVAL = object()


def ispoly(v):
    return isinstance(v, P)


class Machine:
    def __init__(self, tu, invariants=(), states=()):
        self.tu = tu
        self.env = {}
        self.bufs = []
        self.invariants = list(invariants)
        self.states = list(states)
        self.recorders = []
        self.loopvars = []
        self.depth = 0
        self.havoc = False
        self.rec_par = []  # concrete execution of a parallel loop: accesses of the current iteration
        self.local = {}

    # ------------------------------------------------------------ memory
    def locate(self, buf, off):
        """The index of a flat offset; being inside the buffer is an obligation."""
        c = cur()
        off = c.n(off)
        idx = []
        q = off
        for d in reversed(buf.sh[1:]):
            d = c.n(d)
            if d.is_const() and d.cval() <= 0:
                raise Refuted("access outside the buffer of %s: it is empty" % buf.name)
            q, r = c.divmod(q, d)
            idx.append(r)
        q = c.n(q)
        n0 = c.n(buf.sh[0]) if buf.sh else ONE
        bad = None
        if not c.ge0(q):
            bad = "before"
        elif not c.ge0(c.n(n0) - 1 - c.n(q)):
            bad = "behind"
        if bad:
            if c.contradictory():
                raise Infeasible()
            raise Refuted("access %s the buffer of %s (offset %r of %s) under %s" % (bad, buf.name, off, "x".join(map(repr, buf.sh)), c.facts[-6:]))
        idx.append(c.n(q))
        idx = tuple(c.n(x) for x in reversed(idx))
        return idx[-len(buf.sh):] if buf.sh else ()

    def load(self, buf, off):
        idx = self.locate(buf, off)
        for r in self.recorders:
            r.reads.append((buf, idx, cur()))
        for acc in self.rec_par:
            acc[1].add((buf, idx))
        return toexpr(buf.mem(idx))

    def store(self, buf, off, v):
        idx = self.locate(buf, off)
        if not buf.writable:
            raise Refuted("writes into the memory of an operand (%s)" % buf.name)
        for r in self.recorders:
            r.writes.append((buf, idx, cur()))
        for acc in self.rec_par:
            acc[0].add((buf, idx))
        old = buf.mem
        val = toexpr(v)
        if all(x.is_const() for x in idx):
            d = dict(old.table) if isinstance(old, Dict) else {}
            d[idx] = val
            buf.mem = Dict(old.below if isinstance(old, Dict) else old, d)
            return

        def mem(i):
            c = cur()
            for a, b in zip(i, idx):
                if not c.eq0(c.n(a) - c.n(b)):
                    return old(i)
            return val

        buf.mem = mem

    # --------------------------------------------------------- functions
    def call(self, fn, args):
        if self.depth > 12:
            raise Unsupported("call depth")
        body = next((c for c in fn.get("inner", ()) if c.get("kind") == "CompoundStmt"), None)
        if body is None:
            fn2 = next((f for f in self.tu.fns.values() if f.get("previousDecl") == fn["id"] or (f.get("name") == fn.get("name") and f.get("type") == fn.get("type") and any(c.get("kind") == "CompoundStmt" for c in f.get("inner", ())))), None)
            if fn2 is None:
                raise Unsupported("call of %s" % fn.get("name"))
            fn, body = fn2, next(c for c in fn2["inner"] if c.get("kind") == "CompoundStmt")
        params = [c for c in fn["inner"] if c.get("kind") == "ParmVarDecl"]
        if len(params) != len(args):
            raise Unsupported("arguments of %s" % fn.get("name"))
        saved = self.env
        self.env = dict(self.env) if fn.get("kind") == "CXXMethodDecl" else {}
        for p, a in zip(params, args):
            self.bind(p, a)
        self.depth += 1
        try:
            self.stmt(body)
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.env = saved

    def bind(self, p, a):
        ty = qual(p)
        isref = ty.rstrip().endswith("&") and not ty.startswith("const ")
        if isinstance(a, Ref):
            if isref:
                self.env[p["id"]] = a
                return
            a = self.get(a)
        self.env[p["id"]] = self.convert(a, ty) if not ty.rstrip().endswith("&") else a

    def convert(self, v, ty):
        if ispoly(v):
            self.fits(v, ty)
        return v

    def fits(self, v, ty):
        """A value stored in a narrow integer type must fit for every operand that can be allocated."""
        t = ty.replace("const ", "").strip()
        if t in ("int", "unsigned int", "int32_t", "short", "char", "unsigned short"):
            c = cur()
            v = c.n(v)
            if v.is_const():
                return
            lim = 2 ** 31 - 1 if t in ("int", "int32_t") else 2 ** 32 - 1 if t == "unsigned int" else 2 ** 15 - 1
            if c.entails(P.const(lim) - v) and c.entails(v + lim + 1):
                return
            if v in self.local.get("small", ()) or any(c.entails(p + 8 - v) and c.entails(v + 8) for p in self.local.get("small", ())):
                return
            raise spec.Definite("the index value %r does not fit into %s for large operands" % (v, t))

    def get(self, r):
        if not isinstance(r, Ref):
            return r
        if isinstance(r, VarRef):
            v = r.frame.get(r.id, NOVAL)
            if v is NOVAL:
                raise Unsupported("variable without a value")
            return self.get(v) if isinstance(v, Ref) else v
        if isinstance(r, MemRef):
            return self.load(r.buf, r.off)
        if isinstance(r, ElemRef):
            return r.arr[r.k]
        raise Unsupported("lvalue")

    def put(self, r, v):
        if isinstance(r, VarRef):
            old = r.frame.get(r.id)
            if isinstance(old, Ref):
                return self.put(old, v)
            r.frame[r.id] = v
        elif isinstance(r, MemRef):
            self.store(r.buf, r.off, v)
        elif isinstance(r, ElemRef):
            r.arr[r.k] = v
        else:
            raise Unsupported("assignment")

    # --------------------------------------------------------- statements
    def stmt(self, n):
        k = n.get("kind")
        inner = n.get("inner", [])
        if k is None or k == "NullStmt":
            return
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n, inner)
        if k.startswith("OMP"):
            return self.omp(n, inner)
        self.ev(n)

    def s_CompoundStmt(self, n, inner):
        for c in inner:
            self.stmt(c)

    def s_AttributedStmt(self, n, inner):
        self.stmt(inner[-1])

    def s_DeclStmt(self, n, inner):
        for d in inner:
            if d["kind"] == "VarDecl":
                self.declare(d)
            elif d["kind"] in ("TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "UsingDecl", "EmptyDecl"):
                pass
            else:
                raise Unsupported(d["kind"])

    def declare(self, d):
        ty = qual(d)
        init = [c for c in d.get("inner", ()) if not c.get("kind", "").endswith("Attr")]
        if d.get("storageClass") == "static":
            raise Unsupported("static variable")
        if not init:
            self.env[d["id"]] = NOVAL
            return
        v = self.ev(init[-1])
        if ty.rstrip().endswith("&"):
            self.env[d["id"]] = v
            return
        v = self.get(v)
        if isinstance(v, list):
            v = list(v)
        self.env[d["id"]] = self.convert(v, ty)

    def s_IfStmt(self, n, inner):
        inner = list(inner)
        if n.get("hasInit"):
            self.stmt(inner.pop(0))
        if n.get("hasVar"):
            self.stmt(inner.pop(0))
        if self.cond(inner[0]):
            self.stmt(inner[1])
        elif len(inner) > 2:
            self.stmt(inner[2])

    def s_ReturnStmt(self, n, inner):
        raise Return(self.get(self.ev(inner[0])) if inner else None)

    def s_ContinueStmt(self, n, inner):
        raise Continue()

    def s_BreakStmt(self, n, inner):
        raise Break()

    def s_ForStmt(self, n, inner, par=False):
        Loop(self, n, par).run()

    def s_WhileStmt(self, n, inner):
        if spec.CONCRETE[0] is None:
            raise Unsupported("while loop")
        for _ in range(10000):
            if not self.cond(inner[0]):
                return
            try:
                self.stmt(inner[1])
            except Continue:
                pass
            except Break:
                return
        raise Unsupported("long loop")

    def omp(self, n, inner):
        kind = n["kind"]
        clauses = [c for c in inner if c.get("kind", "").startswith("OMP") and c["kind"].endswith("Clause")]
        names = {c["kind"] for c in clauses if not c.get("isImplicit")} - {"OMPScheduleClause", "OMPNum_threadsClause", "OMPDefaultClause", "OMPSharedClause", "OMPFirstprivateClause", "OMPIfClause"}
        if kind not in ("OMPParallelForDirective", "OMPForDirective", "OMPParallelForSimdDirective", "OMPSimdDirective"):
            raise Unsupported(kind)
        levels = 1
        if "OMPCollapseClause" in names:
            names.discard("OMPCollapseClause")
            lit = next(find(next(c for c in clauses if c["kind"] == "OMPCollapseClause"), "IntegerLiteral"), None)
            levels = int(lit["value"]) if lit else 0
            if levels not in (1, 2, 3):
                raise Unsupported("collapse")
        if names:
            raise Unsupported("clauses %s" % sorted(names))
        st = next((f for c in inner if c.get("kind") == "CapturedStmt" for f in find(c, "ForStmt")), None)
        if st is None:
            raise Unsupported("OpenMP loop")
        Loop(self, st, levels).run()

    # -------------------------------------------------------- expressions
    def cond(self, n):
        v = self.get(self.ev(n))
        if isinstance(v, bool):
            return v
        if ispoly(v):
            return not cur().eq0(v)
        raise Unsupported("condition on data")

    def num(self, n):
        return self.get(self.ev(n))

    def ev(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("C++ %s" % k)
        return m(n, n.get("inner", []))

    def through(self, n, inner):
        return self.ev(inner[0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = through
    e_CXXStdInitializerListExpr = e_SubstNonTypeTemplateParmExpr = e_FullExpr = through

    def e_IntegerLiteral(self, n, inner):
        return P.const(int(n["value"]))

    def e_FloatingLiteral(self, n, inner):
        from fractions import Fraction

        return const(Fraction(n["value"]))

    def e_CXXBoolLiteralExpr(self, n, inner):
        return bool(n["value"])

    def e_StringLiteral(self, n, inner):
        return ast_str(n)

    def e_CXXNullPtrLiteralExpr(self, n, inner):
        return None

    def e_ImplicitValueInitExpr(self, n, inner):
        return self.zero_of(qual(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero_of(self, ty):
        ty = ty.replace("const ", "").strip()
        if ty in ("double", "float"):
            return ZEROE
        if ty in INTS:
            return ZERO
        raise Unsupported("value of type " + ty)

    def e_DeclRefExpr(self, n, inner):
        d = n["referencedDecl"]
        if d["kind"] in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            if d["id"] in self.env:
                return VarRef(self.env, d["id"])
            nm = d.get("name", "")
            if nm.startswith("k") and "ScalarType" in qual(n):
                return "dtype:" + nm[1:]
            if nm == "GRAIN_SIZE":
                return P.const(32768)
            raise Unsupported("variable " + nm)
        if d["kind"] == "EnumConstantDecl":
            return "dtype:" + d["name"]
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", d)
        raise Unsupported("reference to " + d["kind"])

    def cast(self, n, inner):
        kind = n.get("castKind")
        v = self.ev(inner[0])
        if kind in ("LValueToRValue",):
            return self.get(v)
        if kind in ("NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "ArrayToPointerDecay", "UncheckedDerivedToBase"):
            return v
        v = self.get(v)
        if kind == "IntegralCast":
            if ispoly(v):
                self.fits(v, qual(n))
                if qual(n).replace("const ", "") in UNSIGNED and not cur().entails(v):
                    if not cur().ge0(v):
                        raise Unsupported("negative value in an unsigned type")
            return v
        if kind == "IntegralToFloating":
            return X.int_expr(cur().n(v)) if ispoly(v) else v
        if kind == "FloatingCast":
            if "float" in qual(n):
                raise Unproved("a value is rounded to float on the way")
            return v
        if kind == "IntegralToBoolean":
            return not cur().eq0(v)
        if kind == "ToVoid":
            return None
        raise Unsupported("cast " + str(kind))

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = cast

    def e_ConditionalOperator(self, n, inner):
        return self.ev(inner[1]) if self.cond(inner[0]) else self.ev(inner[2])

    def e_UnaryOperator(self, n, inner):
        op = n["opcode"]
        if op == "!":
            return not self.cond(inner[0])
        if op in ("++", "--"):
            r = self.ev(inner[0])
            old = self.get(r)
            new = self.arith("+" if op == "++" else "-", old, P.const(1), qual(n))
            self.put(r, new)
            return old if n.get("isPostfix") else r
        if op == "&":
            r = self.ev(inner[0])
            while isinstance(r, VarRef) and isinstance(r.frame.get(r.id), Ref):
                r = r.frame[r.id]
            if isinstance(r, MemRef):
                return Ptr(r.buf, r.off)
            if isinstance(r, VarRef):
                return r
            if isinstance(r, tuple) and r[0] == "fn":
                return r
            raise Unsupported("address")
        if op == "*":
            p = self.num(inner[0])
            if isinstance(p, Ptr):
                return MemRef(p.buf, p.off)
            raise Unsupported("dereference")
        v = self.num(inner[0])
        if op == "-":
            return -v
        if op == "+":
            return v
        raise Unsupported("operator " + op)

    def e_ArraySubscriptExpr(self, n, inner):
        p = self.get(self.ev(inner[0]))
        i = self.num(inner[1])
        if isinstance(p, Ptr):
            return MemRef(p.buf, p.off + i)
        if isinstance(p, list):
            i = cur().n(i)
            if not i.is_const():
                raise Unsupported("symbolic index into a local array")
            if not 0 <= i.cval() < len(p):
                raise Refuted("index %d outside a local array of %d" % (i.cval(), len(p)))
            return ElemRef(p, i.cval())
        raise Unsupported("subscript")

    def e_BinaryOperator(self, n, inner):
        op = n["opcode"]
        if op == "&&":
            return self.cond(inner[0]) and self.cond(inner[1])
        if op == "||":
            return self.cond(inner[0]) or self.cond(inner[1])
        if op == ",":
            self.ev(inner[0])
            return self.ev(inner[1])
        if op == "=":
            r = self.ev(inner[0])
            v = self.num(inner[1])
            self.put(r, self.convert(v, qual(n)))
            return r
        return self.arith(op, self.num(inner[0]), self.num(inner[1]), qual(n))

    def e_CompoundAssignOperator(self, n, inner):
        r = self.ev(inner[0])
        v = self.num(inner[1])
        self.put(r, self.arith(n["opcode"][:-1], self.get(r), v, qual(n)))
        return r

    def arith(self, op, a, b, ty):
        c = cur()
        if isinstance(a, str) or isinstance(b, str):
            if op in ("==", "!="):
                return (a == b) == (op == "==")
            raise Unsupported("operator on " + str(a))
        if isinstance(a, bool):
            a = P.const(int(a))
        if isinstance(b, bool):
            b = P.const(int(b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "+":
                p, o = (a, b) if isinstance(a, Ptr) else (b, a)
                return Ptr(p.buf, p.off + o, p.ro)
            if op == "-" and ispoly(b):
                return Ptr(a.buf, a.off - b, a.ro)
            if op == "-" and a.buf is b.buf:
                return c.n(a.off - b.off)
            if op in CMP and a.buf is b.buf:
                return self.arith(op, a.off, b.off, ty)
            raise Unsupported("pointer arithmetic")
        if ispoly(a) and ispoly(b):
            if op in CMP:
                d = c.n(a - b)
                if op == "==":
                    return c.eq0(d)
                if op == "!=":
                    return not c.eq0(d)
                return c.ge0({"<": -d - 1, "<=": -d, ">": d - 1, ">=": d}[op])
            if op in "+-*":
                r = c.n(a + b if op == "+" else a - b if op == "-" else a * b)
                self.fits(r, ty)
                return r
            if op in "/%":
                if not c.ge0(a):
                    raise Unsupported("division of a negative value")
                if c.eq0(b):
                    raise Refuted("division by zero")
                q, r = c.divmod(c.n(a), c.n(b))
                return q if op == "/" else r
            raise Unsupported("integer operator " + op)
        if isinstance(a, CT) or isinstance(b, CT):
            raise Unsupported("tensor arithmetic")
        if ispoly(a):
            a = X.int_expr(a)
        if ispoly(b):
            b = X.int_expr(b)
        if not isinstance(a, X.Expr) or not isinstance(b, X.Expr):
            raise Unsupported("operands of " + op)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return a * T.inverse(b)
        raise Unsupported("operator %s on data" % op)

    # ------------------------------------------------------------- calls
    def e_LambdaExpr(self, n, inner):
        op = next(m for m in find(n, "CXXMethodDecl") if m.get("name") == "operator()")
        return Lam(op, self.env, True)

    def call_lambda(self, lam, args):
        saved = self.env
        params = [c for c in lam.node["inner"] if c.get("kind") == "ParmVarDecl"]
        body = next(c for c in lam.node["inner"] if c.get("kind") == "CompoundStmt")
        if len(params) != len(args):
            raise Unsupported("arguments of a lambda")
        self.env = lam.env  # captured by reference: the same variables
        for p, a in zip(params, args):
            self.bind(p, a)
        try:
            self.stmt(body)
            return None
        except Return as r:
            return r.v
        finally:
            self.env = saved

    def args(self, nodes):
        return [self.ev(a) for a in nodes if a["kind"] != "CXXDefaultArgExpr"]

    def e_CXXOperatorCallExpr(self, n, inner):
        ref = next(find(inner[0], "DeclRefExpr"), None)
        name = ref["referencedDecl"]["name"] if ref else "?"
        args = self.args(inner[1:])
        if name == "operator()":
            f = self.get(args[0])
            if isinstance(f, Lam):
                return self.call_lambda(f, args[1:])
        if name == "operator[]":
            p, i = self.get(args[0]), self.get(args[1])
            if isinstance(p, list):
                i = cur().n(i)
                if i.is_const() and 0 <= i.cval() < len(p):
                    return ElemRef(p, i.cval())
            if isinstance(p, Sizes):
                i = cur().n(i)
                return p[i.cval()]
        if name == "operator=":
            v = self.get(args[1])
            self.put(args[0], v)
            return args[0]
        if name in ("operator+", "operator-", "operator*") and all(isinstance(self.get(a), CT) for a in args):
            a, b = (self.get(x) for x in args)
            f = {"operator+": lambda x, y: x + y, "operator-": lambda x, y: x - y, "operator*": lambda x, y: x * y}[name]
            return CT(f(self.value(a), self.value(b)), None, False, a.dtype)
        raise Unsupported("operator call " + name)

    def e_CallExpr(self, n, inner):
        callee = inner[0]
        ref = next(find(callee, "DeclRefExpr"), None)
        if ref is None:
            raise Unsupported("indirect call")
        d = ref["referencedDecl"]
        name = d.get("name")
        if d["id"] in self.tu.fns:
            return self.call(self.tu.fns[d["id"]], self.args(inner[1:]))
        h = getattr(self, "f_" + name, None)
        if h is None:
            raise Unsupported("call of " + str(name))
        return h(*self.args(inner[1:]))

    def e_CXXConstructExpr(self, n, inner):
        args = self.args(inner)
        if len(args) == 1:
            v = self.get(args[0])
            return v
        if not args and "Tensor" in qual(n):
            return NOVAL
        raise Unsupported("construction of " + qual(n))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n, inner):
        vals = [self.get(v) for v in self.args(inner)]
        ty = qual(n)
        if ty.replace("const ", "").strip() in INTS + ("double",) and len(vals) == 1:
            return vals[0]
        return vals

    def f_verif_check(self, ok):
        if not self.get(ok):
            raise TorchError("TORCH_CHECK")
        return True

    def f_verif_dispatch_complex(self, t):
        return None

    def f_verif_dispatch_floating(self, t):
        if str(self.get(t)).startswith("dtype:Complex"):
            raise TorchError("not implemented for this type")

    def f_move(self, x):
        return x

    f_forward = f_move

    def f_fma(self, a, b, c):
        return self.get(a) * self.get(b) + self.get(c)

    def f_min(self, a, b):
        a, b = self.get(a), self.get(b)
        return C.pmin(a, b)

    def f_max(self, a, b):
        a, b = self.get(a), self.get(b)
        return a if cur().ge0(cur().n(a - b)) else b

    def f_get_num_threads(self):
        v = cur().newvar(cur().fresh("threads"), 1)
        return v

    def f_parallel_for(self, lo, hi, grain, f):
        lo, hi, f = self.get(lo), self.get(hi), self.get(f)
        if not isinstance(f, Lam):
            raise Unsupported("parallel_for")
        params = [c for c in f.node["inner"] if c.get("kind") == "ParmVarDecl"]
        body = next(c for c in f.node["inner"] if c.get("kind") == "CompoundStmt")
        loops = [c for c in body["inner"] if c.get("kind") == "ForStmt"]
        uses = [sum(1 for r in find(body, "DeclRefExpr") if r.get("referencedDecl", {}).get("id") == p["id"]) for p in params]
        if len(body["inner"]) != 1 or len(loops) != 1 or uses != [1, 1]:
            raise Unsupported("parallel_for body")
        init, cnd = loops[0]["inner"][0], loops[0]["inner"][2]
        if not any(r["referencedDecl"]["id"] == params[0]["id"] for r in find(init, "DeclRefExpr")) or not any(r["referencedDecl"]["id"] == params[1]["id"] for r in find(cnd, "DeclRefExpr")):
            raise Unsupported("parallel_for bounds")
        saved, self.env = self.env, f.env
        try:
            self.bind(params[0], lo)
            self.bind(params[1], hi)
            Loop(self, loops[0], 1).run()
        finally:
            self.env = saved

    # ------------------------------------------------------------ tensors
    def value(self, t):
        if t is NOVAL:
            raise Unsupported("undefined tensor")
        return t.t

    def fresh(self, t, contig, dtype):
        return CT(t, contig, False, dtype)

    def f_cat(self, ts, dim=None):
        ts = self.get(ts)
        vals = [self.get(x) for x in ts]
        if any(not isinstance(v, CT) for v in vals):
            raise Unsupported("cat")
        dim = self.int(dim) if dim is not None else 0
        if len({v.dtype for v in vals}) > 1:
            raise Unsupported("cat promotes")
        t = T.cat([v.t for v in vals], dim)
        return self.fresh(t, True if len(t.sh) <= 3 else None, vals[0].dtype)

    def f_stack(self, ts, dim=None):
        vals = [self.get(x) for x in self.get(ts)]
        t = T.stack([v.t for v in vals], self.int(dim) if dim is not None else 0)
        return self.fresh(t, True if len(t.sh) <= 3 else None, vals[0].dtype)

    def f_pad(self, x, spec_):
        x = self.get(x)
        t = T.pad(x.t, tuple(mk(p) for p in self.ints(spec_)))
        return self.fresh(t, True if len(t.sh) <= 3 else None, x.dtype)

    f_constant_pad_nd = f_pad

    def f_empty_like(self, x):
        x = self.get(x)
        return self.fresh(T.empty_like(x.t), x.contig, x.dtype)

    def f_zeros_like(self, x):
        x = self.get(x)
        return self.fresh(T.zeros_like(x.t), x.contig, x.dtype)

    def f_empty(self, sizes, opt=None):
        d = self.get(opt)
        return self.fresh(T.uninit(*[mk(p) for p in self.ints(sizes)], real=d[2]), True, d[1])

    def f_zeros(self, sizes, opt=None):
        d = self.get(opt)
        return self.fresh(T.zeros(*[mk(p) for p in self.ints(sizes)], real=d[2]), True, d[1])

    def int(self, v):
        v = self.get(v)
        if isinstance(v, bool):
            return int(v)
        v = cur().n(v)
        return v.cval() if v.is_const() else mk(v)

    def ints(self, v):
        v = self.get(v)
        if ispoly(v):
            return [v]
        return [self.get(x) for x in v]

    def e_CXXMemberCallExpr(self, n, inner):
        me = inner[0]
        while me["kind"] in ("ParenExpr",):
            me = me["inner"][0]
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call")
        name = me["name"]
        obj = self.get(self.ev(me["inner"][0]))
        args = self.args(inner[1:])
        if isinstance(obj, Sizes):
            if name == "size":
                return P.const(len(obj))
            raise Unsupported("sizes()." + name)
        if not isinstance(obj, CT):
            raise Unsupported("method " + name)
        t = self.value(obj)
        if name == "size":
            k = self.int(args[0])
            return cur().n(t.sh[t.dimn(k)])
        if name in ("dim", "ndimension"):
            return P.const(len(t.sh))
        if name == "numel":
            r = ONE
            for s in t.sh:
                r = r * cur().n(s)
            return cur().n(r)
        if name == "sizes":
            return Sizes(cur().n(s) for s in t.sh)
        if name in ("scalar_type", "dtype"):
            return obj.dtype
        if name == "options":
            return ("options", obj.dtype, t._real)
        if name == "is_complex":
            return not t._real
        if name == "defined":
            return True
        if name == "contiguous":
            if obj.contig is True:
                return obj
            r = CT(obj.t, True, obj.shares, obj.dtype)
            r.buf, r.derived = obj.buf, obj.derived and obj.contig is not False and not obj.shares
            return r
        if name == "clone":
            return CT(t.clone(), obj.contig, False, obj.dtype)
        if name == "detach" or (name == "to" and self.get(args[0]) == obj.dtype):
            return obj
        if name == "item":
            c = cur()
            num = self.e_numel(t)
            if not c.eq0(c.n(num) - 1):
                raise TorchError("item of a tensor with several elements")
            return t.at(tuple(ZERO for _ in t.sh))
        if name in ("const_data_ptr", "mutable_data_ptr", "data_ptr"):
            return self.pointer(obj, name)
        if name == "slice":
            d, lo, hi = self.int(args[0]), self.int(args[1]), self.int(args[2])
            st = self.int(args[3]) if len(args) > 3 else None
            key = [slice(None)] * t.dimn(d) + [slice(lo, hi, st)]
            return self.cut(obj, t[tuple(key)], t.dimn(d), st)
        if name == "narrow":
            return self.cut(obj, t.narrow(*[self.int(a) for a in args]), t.dimn(self.int(args[0])), None)
        if name == "select":
            d = t.dimn(self.int(args[0]))
            return self.view(obj, t[tuple([slice(None)] * d + [self.int(args[1])])])
        if name in ("unsqueeze", "squeeze", "transpose", "flatten"):
            return self.view(obj, getattr(t, name)(*[self.int(a) for a in args]))
        if name in ("reshape", "view", "expand", "permute"):
            return self.view(obj, getattr(t, name)(*[mk(p) for p in self.ints(args[0])]), same=obj.contig if name in ("reshape", "view") else None)
        if name == "flip":
            return self.fresh(t.flip(*[self.int(p) for p in self.ints(args[0])]), None, obj.dtype)
        if name in ("t", "mT"):
            return self.view(obj, t.transpose(-1, -2))
        if name in ("conj", "conj_physical", "resolve_conj"):
            if name == "resolve_conj":
                return obj
            return CT(t.conj(), obj.contig if name == "conj_physical" else None, obj.shares, obj.dtype)
        raise Unsupported("tensor method " + name)

    def e_numel(self, t):
        r = ONE
        for s in t.sh:
            r = r * cur().n(s)
        return r

    def cut(self, obj, t, d, step):
        """A slice of dimension d: contiguous where nothing is cut or no earlier axis is longer than one."""
        r = self.view(obj, t)
        if obj.contig is True and step in (None, 1):
            c = cur()
            n = [c.n(s) for s in t.sh]
            if c.n(obj.t.sh[d] - n[d]) == ZERO:
                r.contig = True
            elif all(p.is_const() for p in n):
                n = [p.cval() for p in n]
                r.contig = 0 in n or all(k == 1 for k in n[:d])
        return r

    def view(self, obj, t, same=None):
        r = CT(t, same, obj.shares, obj.dtype)
        r.derived = True
        return r

    def pointer(self, obj, name):
        t = obj.t
        if obj.contig is not True:
            if obj.contig is False or obj.shares:
                raise Refuted("the memory of an operand is read as if it were contiguous")
            raise Unproved("pointer into a tensor whose layout is not known")
        if obj.derived and not (obj.shares and name == "const_data_ptr"):
            raise Unsupported("pointer into a view")
        if obj.shares and name == "mutable_data_ptr":
            raise Refuted("writes into a tensor that may share memory with an operand")
        if obj.buf is None:
            b = Buffer(getattr(t.sym, "name", None) or "a temporary", t.sh, T.freeze(t), not obj.shares)
            self.bufs.append(b)
            obj.buf = b
            obj.t = Tensor(t.sh, lambda i: b.mem(i), t._real)
            obj.t.copied = True
        return Ptr(obj.buf, ZERO, name == "const_data_ptr")


class Dict:
    """Memory with entries of known index on top."""

    def __init__(self, below, table):
        self.below, self.table = below, table

    def __call__(self, i):
        c = cur()
        i = tuple(c.n(x) for x in i)
        if i in self.table:
            return self.table[i]
        if all(x.is_const() for x in i):
            return self.below(i)
        for k, v in reversed(list(self.table.items())):
            if all(c.eq0(c.n(a) - b) for a, b in zip(i, k)):
                return v
        return self.below(i)


INTS = ("int", "long", "unsigned long", "unsigned int", "int64_t", "size_t", "short", "char", "bool", "long long", "unsigned long long", "std::size_t", "std::int64_t", "int32_t", "ptrdiff_t")
UNSIGNED = ("unsigned long", "unsigned int", "size_t", "std::size_t", "unsigned long long", "uint64_t", "uint32_t")
CMP = ("==", "!=", "<", "<=", ">", ">=")


def qual(n):
    ty = n.get("type", {})
    return ty.get("desugaredQualType") or ty.get("qualType", "")


class Recorder:
    def __init__(self):
        self.reads, self.writes, self.acc = [], [], {}


class Loop:
    def __init__(self, m, n, par):
        self.m, self.n = m, n
        self.par = int(par)
        init, _, cnd, inc, self.body = n["inner"]
        self.init, self.cnd, self.inc = init, cnd, inc

    def header(self):
        m = self.m
        init, cnd, inc = self.init, self.cnd, self.inc
        if init.get("kind") == "DeclStmt" and len(init["inner"]) == 1:
            m.s_DeclStmt(init, init["inner"])
            self.var = init["inner"][0]["id"]
            self.ty = qual(init["inner"][0])
        elif init.get("kind") == "BinaryOperator" and init.get("opcode") == "=":
            r = next(find(init["inner"][0], "DeclRefExpr"))
            m.ev(init)
            self.var = r["referencedDecl"]["id"]
            self.ty = qual(init)
        else:
            raise Unsupported("loop header")
        lo = m.get(m.env[self.var])
        if not ispoly(lo):
            raise Unsupported("loop over " + str(type(lo)))
        step = self.step(inc)
        if cnd.get("kind") != "BinaryOperator" or cnd["opcode"] not in CMP:
            raise Unsupported("loop condition")
        left, right = cnd["inner"]
        op = cnd["opcode"]
        isv = lambda e: bare(e) == self.var
        if isv(right) and not isv(left):
            left, right = right, left
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
        if not isv(left):
            raise Unsupported("loop condition")
        hi = m.num(right)
        if self.ty.replace("const ", "").strip() in ("int", "int32_t", "short", "unsigned int"):
            m.fits(hi, self.ty)
        c = cur()
        if step == 1:
            n = {"<": hi - lo, "<=": hi - lo + 1, "!=": hi - lo}.get(op)
        else:
            n = {">": lo - hi, ">=": lo - hi + 1, "!=": lo - hi}.get(op)
        if n is None:
            raise Unsupported("loop condition")
        if op == "!=" and not c.entails(c.n(n)):
            raise Unsupported("loop with != bound")
        # the bound must not change in the loop
        return c.n(lo), step, c.n(n), right

    def step(self, inc):
        op = inc.get("opcode")
        if inc.get("kind") == "UnaryOperator" and bare(inc["inner"][0]) == self.var:
            return 1 if op == "++" else -1
        if inc.get("kind") == "CompoundAssignOperator" and bare(inc["inner"][0]) == self.var and op in ("+=", "-="):
            v = cur().n(self.m.num(inc["inner"][1]))
            if v.is_const() and v.cval() == 1:
                return 1 if op == "+=" else -1
        raise Unsupported("loop increment")

    def concrete(self):
        """Plain execution (sizes are numbers)."""
        m = self.m
        init = self.init
        m.stmt(init)
        accs = []
        for it in range(5000):
            if not m.cond(self.cnd):
                break
            acc = (set(), set())
            if self.par:
                m.rec_par.append(acc)
            try:
                if self.par > 1:
                    self.nested_parallel()
                else:
                    m.stmt(self.body)
            except Continue:
                pass
            except Break:
                if self.par:
                    raise Unsupported("break in a parallel loop")
                return
            finally:
                if self.par:
                    m.rec_par.pop()
            accs.append(acc)
            m.ev(self.inc)
        else:
            raise Unsupported("long loop")
        if self.par:
            for i, a in enumerate(accs):
                for j, b in enumerate(accs):
                    if i != j and a[0] & (b[0] | b[1]):
                        buf, idx = next(iter(a[0] & (b[0] | b[1])))
                        raise Refuted("data race: two parallel iterations access entry %s of %s" % (idx, buf.name))

    def nested_parallel(self):
        b = self.body
        while b.get("kind") == "CompoundStmt" and len(b["inner"]) == 1:
            b = b["inner"][0]
        if b.get("kind") != "ForStmt":
            raise Unsupported("collapse")
        Loop(self.m, b, self.par - 1).run()

    def run(self):
        if spec.CONCRETE[0] is not None:
            outer = self.outer_assigned() if self.par else []
            if outer:
                raise Refuted("data race on a variable of the enclosing scope")
            return self.concrete()
        m = self.m
        lo, step, n, right = self.header()
        c = cur()
        self.stable(right)
        if not c.ge0(n - 1):
            m.env[self.var] = c.n(lo)  # no iteration
            return
        lo, n = c.n(lo), c.n(n)
        if n.is_const() and n.cval() <= 4 and not self.par:
            for k in range(n.cval()):
                m.env[self.var] = c.n(lo + step * k)
                self.body_once()
            m.env[self.var] = c.n(lo + step * n)
            return
        Summary(self, lo, step, n).apply()

    def stable(self, right):
        """Neither the loop variable nor the bound is assigned in the body."""
        used = {r.get("referencedDecl", {}).get("id") for r in find(right, "DeclRefExpr")}
        if used & set(self.outer_assigned()):
            raise Unsupported("the bound of the loop changes")
        for k in ("UnaryOperator", "BinaryOperator", "CompoundAssignOperator"):
            for e in find(self.body, k):
                if (k != "UnaryOperator" or e.get("opcode") in ("++", "--", "&")) and (k != "BinaryOperator" or e.get("opcode") == "=") and bare(e["inner"][0]) == self.var:
                    raise Unsupported("the loop variable is assigned in the body")
        for e in list(find(self.body, "VarDecl")) + [q for f in find(self.body, "CallExpr") for q in f["inner"][1:]]:
            if e.get("kind") == "VarDecl":
                if qual(e).rstrip().endswith("&") and not qual(e).startswith("const ") and any(bare(x) == self.var for x in e.get("inner", ())):
                    raise Unsupported("reference to the loop variable")
            elif e.get("kind") == "DeclRefExpr" and e.get("referencedDecl", {}).get("id") == self.var:
                raise Unsupported("reference to the loop variable")

    def body_once(self):
        try:
            if self.par > 1:
                self.nested_parallel()
            else:
                self.m.stmt(self.body)
        except Continue:
            pass
        except Break:
            raise Unsupported("break")

    def outer_assigned(self):
        """Variables of the enclosing scope that the body may assign."""
        inside = {d["id"] for d in find(self.body, "VarDecl")} | {d["id"] for d in find(self.body, "ParmVarDecl")} | {self.var_id()}
        out = []

        def walk(n, loaded):
            if not isinstance(n, dict):
                return
            k = n.get("kind")
            if k == "DeclRefExpr":
                d = n.get("referencedDecl", {})
                if not loaded and d.get("kind") in ("VarDecl", "ParmVarDecl") and d["id"] not in inside and d["id"] in self.m.env and d["id"] not in out:
                    v = self.m.env[d["id"]]
                    if v is NOVAL or isinstance(v, (P, X.Expr, Ptr, bool, Ref, list)):
                        if "const " not in qual(n):
                            out.append(d["id"])
                return
            ld = k == "ImplicitCastExpr" and n.get("castKind") in ("LValueToRValue",)
            if k == "LambdaExpr":
                for x in find(n, "CXXMethodDecl"):
                    if x.get("name") == "operator()":
                        for y in x.get("inner", ()):
                            walk(y, False)
                return
            for x in n.get("inner", ()):
                walk(x, ld or (loaded and k == "ParenExpr"))

        walk(self.body, False)
        # a reference bound to memory is not a variable of its own
        return [i for i in out if not isinstance(self.m.env[i], MemRef)]

    def var_id(self):
        i = self.init
        if i.get("kind") == "DeclStmt":
            return i["inner"][0]["id"]
        return next(find(i["inner"][0], "DeclRefExpr"))["referencedDecl"]["id"]


def bare(e):
    while e.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        e = e["inner"][0]
    return e.get("referencedDecl", {}).get("id") if e.get("kind") == "DeclRefExpr" else None


class Summary:
    """The effect of a loop with n >= 1 iterations k = 0..n-1, variable lo + step * k."""

    def __init__(self, loop, lo, step, n):
        self.loop, self.m = loop, loop.m
        self.lo, self.step, self.n = lo, step, n
        self.env0 = dict(self.m.env)
        self.frame = self.m.env
        self.mem0 = {b: b.mem for b in self.m.bufs}
        self.ints, self.floats, self.kills = {}, [], []
        self.where = {}
        self.inv = {}

    # state at the start of iteration k
    def enter(self, k, mems=None, floats=None):
        m = self.m
        self.frame.clear()
        self.frame.update(self.env0)
        m.env = self.frame
        c = cur()
        self.frame[self.loop.var] = c.n(self.lo + self.step * k)
        for i, d in self.ints.items():
            v = self.env0[i]
            self.frame[i] = Ptr(v.buf, c.n(v.off + d * k), v.ro) if isinstance(v, Ptr) else c.n(v + d * k)
        for i in self.floats:
            self.frame[i] = floats[i] if floats else ZEROE
        for i in self.kills:
            self.frame[i] = NOVAL
        for b in m.bufs:
            b.mem = (mems or self.mem0).get(b, b.mem)

    def keep(self):
        m = self.m
        return dict(self.frame), [(b, b.mem) for b in m.bufs], m.env, len(m.bufs), m.recorders

    def restore(self, s):
        m = self.m
        self.frame.clear()
        self.frame.update(s[0])
        del m.bufs[s[3]:]
        for b, mem in s[1]:
            b.mem = mem
        m.env = s[2]
        m.recorders = s[4]

    def quiet(self, fn):
        """Evaluate fn without any lasting effect or recording."""
        s = self.keep()
        self.m.recorders = []
        try:
            return fn()
        finally:
            self.restore(s)

    def probe(self, fn):
        """fn(k) for an arbitrary iteration, on all paths: list of (ctx, result)."""
        def run():
            c = cur()
            k = c.newvar(c.fresh("i"), 0)
            c.add_fact(c.n(self.n) - 1 - k)
            s = self.keep()
            try:
                return fn(k)
            finally:
                self.restore(s)

        res = explore(run, cur())
        return [(c, r) for c, r in res if not c.contradictory()]

    def apply(self):
        m, loop = self.m, self.loop
        outer = loop.outer_assigned()
        if loop.par and outer:
            raise Refuted("data race: parallel iterations assign a variable of the enclosing scope")
        self.classify(outer)
        # every access of an arbitrary iteration
        outer_recs = m.recorders

        def one(k):
            r = Recorder()
            m.recorders = m.recorders + [r]
            fl = {}
            for i in self.floats:
                s = T.new_sym("acc", (), True)
                fl[i] = app(s, ())
                r.acc[i] = s.name
            self.enter(k, None, fl)
            loop.body_once()
            out = {i: self.frame.get(i) for i in self.floats}
            for i in self.floats:
                self.additive(out[i], r.acc[i])
            return k, r

        res = self.probe(one)
        self.patterns(res)
        carried = self.carried(res)
        for rec in outer_recs:
            for c, (k, r) in res:
                rec.reads += r.reads
                rec.writes += r.writes
        if loop.par and carried:
            raise Refuted("data race: a parallel iteration reads what another iteration writes (%s)" % sorted({b.name for b in carried}))
        for b in carried:
            self.inv[b] = self.find_invariant(b, carried)
        finals = {}
        for b in self.where:
            finals[b] = self.final(b)
        accs = {}
        for i in self.floats:
            accs[i] = toexpr(self.env0[i]) + Sum(ZERO, self.n, lambda k, i=i: self.gain(k, i))
        last = {}
        for i in self.kills:
            last[i] = self.quiet(lambda: self.at_end(cur().n(self.n - 1), i))
        self.frame.clear()
        self.frame.update(self.env0)
        m.env = self.frame
        c = cur()
        self.frame[loop.var] = c.n(self.lo + self.step * self.n)
        for i, d in self.ints.items():
            v = self.env0[i]
            self.frame[i] = Ptr(v.buf, c.n(v.off + d * self.n), v.ro) if isinstance(v, Ptr) else c.n(v + d * self.n)
        self.frame.update(accs)
        self.frame.update(last)
        for b, f in finals.items():
            b.mem = f

    def at_end(self, k, i):
        self.enter(k, self.mems(k))
        self.loop.body_once()
        return self.frame.get(i)

    def gain(self, k, i):
        def f():
            self.enter(k, self.mems(k))
            self.loop.body_once()
            return toexpr(self.frame[i])

        return self.quiet(f)

    def additive(self, v, name):
        n = 0
        for t in X.normalize(toexpr(v)):
            has = [b for b in t.f if b[0] == "app" and b[1] == name]
            if has:
                n += 1
                if len(t.f) != 1 or t.c != 1 or t.b or t.f[has[0]] != ONE:
                    n = 99
        if n != 1:
            raise Unsupported("accumulator that is not a sum")

    def classify(self, outer):
        """Assigned variables of the enclosing scope: induction variables, sums, or values overwritten every time."""
        m = self.m
        if not outer:
            return
        ints = [i for i in outer if isinstance(self.env0[i], (P, Ptr))]
        rest = [i for i in outer if i not in ints]
        for i in rest:
            v = self.env0[i]
            if isinstance(v, X.Expr):
                self.floats.append(i)
            elif v is NOVAL:
                self.kills.append(i)
            else:
                raise Unsupported("assigned variable of the enclosing scope")
        # a float that is overwritten before it is read
        if self.floats:
            for i in list(self.floats):
                if self.killed(i, ints):
                    self.floats.remove(i)
                    self.kills.append(i)
        if ints:
            self.find_steps(ints)

    def killed(self, i, ints):
        m = self.m

        def one(k):
            m.recorders = []
            self.enter(k, None, {j: ZEROE for j in self.floats})
            self.frame[i] = NOVAL
            loc = m.locate
            m.locate = lambda b, o: tuple(ZERO for _ in b.sh)
            try:
                self.loop.body_once()
                return True
            except Unsupported as e:
                if "without a value" in str(e):
                    return False
                raise
            finally:
                m.locate = loc

        try:
            return all(r for c, r in self.probe(one))
        except (Refuted, Unproved):
            return False

    def find_steps(self, ints):
        m = self.m

        def one(k):
            c = cur()
            m.recorders = []
            self.enter(k)
            start = {}
            for i in ints:
                v = self.env0[i]
                s = c.newvar(c.fresh("ind"))
                start[i] = s
                self.frame[i] = Ptr(v.buf, s, v.ro) if isinstance(v, Ptr) else s
            loc = m.locate
            m.locate = lambda b, o: tuple(ZERO for _ in b.sh)
            try:
                self.loop.body_once()
            finally:
                m.locate = loc
            out = {}
            for i in ints:
                v = self.frame[i]
                v = v.off if isinstance(v, Ptr) else v
                out[i] = c.n(v - start[i])
            return k, out, start

        deltas = {}
        for c, (k, out, start) in self.probe(one):
            for i, d in out.items():
                bad = {next(iter(k.vars()))} | {next(iter(s.vars())) for s in start.values()}
                if d.vars() & bad or any("'" in v and v not in cur().order for v in d.vars()):
                    raise Unsupported("variable without a fixed step")
                if i in deltas and deltas[i] != d:
                    raise Unsupported("variable with different steps")
                deltas[i] = d
        self.ints = {i: d for i, d in deltas.items()}

    def patterns(self, res):
        """Per written buffer: the dimension that runs with the loop and the dimensions that stay fixed."""
        order = cur().order
        per = {}
        for c, (k, r) in res:
            for b, idx, wc in r.writes:
                if b in self.mem0:
                    per.setdefault(b, []).append((k, tuple(wc.n(x) for x in idx), wc))
        def common(vals):
            """One value, in terms of what is known outside, that all paths agree on."""
            for _, v in vals:
                if all(x in order for x in v.vars()) and all(wc.n(w - v) == ZERO for wc, w in vals):
                    return v
            return None

        for b, ws in per.items():
            d = off = None
            for q in range(len(b.sh)):
                off = common([(wc, wc.n(idx[q] - (self.lo + self.step * k))) for k, idx, wc in ws])
                if off is not None:
                    d = q
                    break
            if d is None:
                if self.loop.par:
                    raise Unproved("parallel iterations are not seen to write different entries of %s" % b.name)
                raise Unsupported("pattern of the writes to %s" % b.name)
            fixed = {}
            for p in range(len(b.sh)):
                v = common([(wc, idx[p]) for k, idx, wc in ws]) if p != d else None
                if v is not None:
                    fixed[p] = v
            self.where[b] = (d, off, fixed)

    def iteration(self, b, idx):
        """The iteration that writes entry idx, or None."""
        d, off, fixed = self.where[b]
        c = cur()
        for p, v in fixed.items():
            if not c.eq0(c.n(idx[p]) - c.n(v)):
                return None
        k = c.n((c.n(idx[d]) - c.n(off) - c.n(self.lo)) * self.step)
        if not c.ge0(k):
            return None
        k = c.n(k)
        if not c.ge0(c.n(self.n) - 1 - k):
            return None
        return c.n(k)

    def carried(self, res):
        """Buffers of which an iteration reads entries written by an earlier one."""
        out = []
        for c, (k, r) in res:
            for b, idx, rc in r.reads:
                if b not in self.where or b in out:
                    continue
                d, off, fixed = self.where[b]
                n = rc.n
                u = n((n(idx[d]) - n(off) - n(self.lo)) * self.step)
                dk = n(u - n(k))
                if dk.is_const() and dk.cval() == 0:
                    continue
                if rc.entails(-u - 1) or rc.entails(u - n(self.n)):
                    continue
                if any(rc.entails(n(idx[p]) - n(v) - 1) or rc.entails(n(v) - n(idx[p]) - 1) for p, v in fixed.items()):
                    continue
                if not self.loop.par and rc.entails(dk - 1):
                    continue  # a later entry still has its old value
                out.append(b)
        return out

    def mems(self, k):
        """Memory at the start of iteration k."""
        out = {}
        for b in self.where:
            old = self.mem0[b]
            if b not in self.inv:
                # only this iteration's own entries are read
                out[b] = old
                continue
            inv = self.inv[b]

            def mem(i, b=b, old=old, inv=inv):
                c = cur()
                u = self.iteration(b, i)
                if u is None or not c.ge0(c.n(k) - 1 - u):
                    return old(i)
                return inv(tuple(c.n(x) for x in i))

            out[b] = mem
        return out

    def final(self, b):
        old = self.mem0[b]
        inv = self.inv.get(b)

        def mem(i):
            c = cur()
            i = tuple(c.n(x) for x in i)
            k = self.iteration(b, i)
            if k is None:
                return old(tuple(c.n(x) for x in i))
            i = tuple(c.n(x) for x in i)
            if inv:
                return inv(i)

            def f():
                self.enter(k, self.mems(k), {j: toexpr(self.env0[j]) + Sum(ZERO, k, lambda q, j=j: self.gain(q, j)) for j in self.floats})
                self.loop.body_once()
                return b.mem(tuple(cur().n(x) for x in i))

            return self.quiet(f)

        return mem

    def find_invariant(self, b, carried):
        if len(carried) > 1:
            raise Unsupported("loop-carried values in several buffers")
        d, off, fixed = self.where[b]
        why, whys = None, []
        if self.m.havoc:
            # only addresses matter: any values
            s = T.new_sym("any", b.sh, True)
            return lambda i: app(s, i)
        for name, f in self.m.invariants:
            inv = f(b)
            if inv is None:
                continue
            self.inv[b] = inv

            def goal(idx):
                c = cur()
                k = c.n(idx[d])
                full = []
                for p in range(len(b.sh)):
                    full.append(c.n(off + self.lo + self.step * k) if p == d else c.n(fixed[p]) if p in fixed else idx[p])
                full = tuple(full)

                def g():
                    self.enter(k, self.mems(k), {j: toexpr(self.env0[j]) + Sum(ZERO, k, lambda q, j=j: self.gain(q, j)) for j in self.floats})
                    self.loop.body_once()
                    return toexpr(b.mem(tuple(cur().n(x) for x in full)))

                got = self.quiet(g)
                return got - toexpr(inv(tuple(cur().n(x) for x in full)))

            shape = tuple(self.n if p == d else ONE if p in fixed else b.sh[p] for p in range(len(b.sh)))
            X.LAST_FAIL[0] = None
            spec.ENSURES[0] += 1
            try:
                if X.forall_zero(shape, goal):
                    return inv
            except Unsupported as e:
                why = e
            lf = X.LAST_FAIL[0]
            whys.append("%s: %s" % (name, str(lf[1][:4])[:300] + str(lf[0].facts[-6:]) + str(lf[0].sub) if lf else why))
            del self.inv[b]
        raise Unproved("no loop invariant of the contract is inductive for the writes to %s (%s)" % (b.name, "; ".join(whys)))


def run_operator(name, args, dtypes, invariants=(), small=(), havoc=False):
    """Execute the CPU implementation of an operator on symbolic operands."""
    tu, fn = operator(name)
    m = Machine(tu, invariants)
    m.local["small"] = set(small)
    m.havoc = havoc
    cts = [CT(t, False, True, dt) for t, dt in zip(args, dtypes)]  # operands: any strides, not ours to write
    r = m.call(fn, cts)
    if not isinstance(r, CT):
        raise Unsupported("result of " + name)
    return r, m

