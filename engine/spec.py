"""Building blocks for contracts: goals over results, recurrence specifications, verdicts."""
import traceback
import numev
from poly import P, ZERO, ONE, topoly
import ctx as C
from ctx import cur, mk, SymInt, Unsupported, Violated, Infeasible, explore, Split, DivSplit
import expr as X
from expr import app, toexpr, const, Sum, ZEROE
import tens as T
from tens import Tensor, sym_tensor, new_rec, rec_tensor


import os

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


class Unproved(Exception):
    pass


class Refuted(Exception):
    """An obligation is definitely false on the current path."""


class Definite(Refuted):
    """... and only for sizes too large to be replayed at small concrete ones."""


ENSURES = [0]
FRAME = [False]  # only the frame is checked: the code is executed, postconditions are not proved


def model_sizes(c, names):
    """Small concrete sizes on which the path of context c is taken (from a z3 model of its conditions)."""
    import z3

    s = z3.Solver()
    s.set("timeout", 2000)
    vs = {}

    def zp(p):
        out = z3.IntVal(0)
        for m, k in p.d.items():
            term = z3.IntVal(int(k))
            for v in m:
                term = term * vs.setdefault(v, z3.Int(v))
            out = out + term
        return out

    try:
        for f in c.facts:
            s.add(zp(f) >= 0)
        for f in c.nes:
            s.add(zp(f) != 0)
        for v, val in c.sub.items():
            s.add(vs.setdefault(v, z3.Int(v)) == zp(val))
        for lim in (3, 5, 9, 17, 40):
            s.push()
            for n in names:
                s.add(vs.setdefault(n, z3.Int(n)) <= lim, vs[n] >= 0)
            if s.check() == z3.sat:
                m = s.model()
                return {n: m.eval(vs[n], model_completion=True).as_long() for n in names}
            s.pop()
    except Exception:
        pass
    return None


def classify(e):
    """Does an exception raised under the engine stand for an exception of the real code?"""
    if isinstance(e, T.TorchError):
        return True
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    inner = "/philtorch/" in tb.tb_frame.f_code.co_filename
    return inner and isinstance(e, (UnboundLocalError, AssertionError, ValueError, NotImplementedError, RuntimeError, IndexError, KeyError)) and not isinstance(e, RecursionError)


ERRORS = (T.TorchError, AssertionError, ValueError, TypeError, IndexError, KeyError, AttributeError, NotImplementedError, RuntimeError, NameError)

# concrete mode: sizes are fixed numbers (used to refute an obligation)
CONCRETE = [None]


SIZES = {}  # name -> smallest value


def size(name, lb=1):
    m = CONCRETE[0]
    SIZES.setdefault(name, lb)
    if m is not None:
        v = m.get(name)
        if v is None:
            v = max(lb, 1)
        if v < lb:
            raise Infeasible()
        return v
    c = cur()
    return SymInt(c.newvar(name, lb))


def requires(cond):
    """Restrict to inputs that satisfy the precondition."""
    if not cond:
        raise Infeasible()


def arg(name, sh, real=True, kind=None):
    return sym_tensor(name, sh, real, kind, arg=True)


def prove_equal_at(sh, got, want, what):
    """got(idx) == want(idx) for all idx in the box."""
    def goal(idx):
        return toexpr(got(idx)) - toexpr(want(idx))

    ENSURES[0] += 1
    if FRAME[0]:
        return
    X.LAST_FAIL[0] = None
    if CONCRETE[0] is not None:
        return concrete_check(sh, goal, what)
    if not X.forall_zero(tuple(T.P_(s) for s in sh), goal):
        lf = X.LAST_FAIL[0]
        msg = ""
        if lf:
            msg = " residual: %s | path: %s" % (str(lf[1][:3])[:400], lf[0].facts[-8:])
        raise Unproved(what + msg)


def concrete_check(sh, goal, what):
    import itertools

    dims = [range(cur().n(T.P_(s)).cval()) for s in sh]
    for idx in itertools.product(*dims):
        g = toexpr(goal(tuple(P.const(i) for i in idx)))
        v = numev.nonzero(g.t)
        if v is False:
            continue
        r = X.prove_zero(g, depth=400)
        if r is True:
            continue
        if v or numev.nonzero(r):
            raise Refuted("%s: at index %s the difference is %s" % (what, idx, str(r[:4])[:300]))
        raise Unproved("%s: at index %s the difference could not be decided: %s" % (what, idx, str(r[:4])[:300]))


def same_shape(t, sh, what):
    c = cur()
    if not isinstance(t, Tensor):
        raise Refuted("%s: result is %r" % (what, type(t)))
    if len(t.sh) != len(sh):
        raise Refuted("%s: result has %d dimensions instead of %d" % (what, len(t.sh), len(sh)))
    for k, (p, q) in enumerate(zip(t.sh, sh)):
        q = T.P_(q)
        if not c.eq0(p - q):
            raise Refuted("%s: size of dimension %d is %r instead of %r" % (what, k, p, q))


def ensures(t, sh, want, what, real=None):
    ENSURES[0] += 1
    if FRAME[0]:
        return
    same_shape(t, sh, what)
    if real is not None and bool(t._real) != bool(real):
        raise Refuted("%s: result is %s" % (what, "real" if t._real else "complex"))
    prove_equal_at(sh, t.at, want, what)


def hint(ok, what):
    ENSURES[0] += 1
    if not ok:
        lf = X.LAST_FAIL[0]
        msg = ""
        if lf:
            msg = " residual: %s | path: %s" % (str(lf[1][:3])[:500], lf[0].facts[-8:])
        raise Unproved("lemma %s%s" % (what, msg))


def relate(sym, cand, what):
    if CONCRETE[0] is not None or FRAME[0]:
        return
    X.LAST_FAIL[0] = None
    hint(X.relate(sym, cand), what)


def express(x, cand, sym, what):
    """Read x as cand (an expression in sym), justified by the rule of sym: sym(i) == rule(i) must follow."""
    if CONCRETE[0] is not None or FRAME[0]:
        return
    c = cur()
    ok = sym.unfold_ok
    sym.unfold_ok = False
    c.rel[x.name] = cand
    X.LAST_FAIL[0] = None
    hint(X.forall_zero(sym.shape, lambda i: toexpr(sym.rule(i)) - app(sym, i), sym), what)


def recs_named(prefix):
    return [s for s in cur().syms.values() if isinstance(s, X.Sym) and s.rule is not None and s.name.startswith(prefix)]


def run_obligation(fn, seconds=60):
    """Explore fn on all paths. Returns (status, detail, npaths)."""
    import time

    C.CUR[0] = C.Ctx()
    C.DEADLINE[0] = time.time() + seconds
    n = [0]
    bad = []
    ENSURES[0] = 0

    def one():
        n[0] += 1
        try:
            fn()
            return None
        except (Infeasible, Split, DivSplit):
            raise
        except Unproved as e:
            return ("unproved", str(e))
        except Definite as e:
            return ("definite", str(e))
        except Refuted as e:
            return ("refuted", str(e))
        except Violated as e:
            return ("refuted", str(e))
        except Unsupported as e:
            return ("unsupported", str(e) + " " + where())
        except ERRORS as e:
            return ("raises" if classify(e) else "unsupported", "%s: %s %s" % (type(e).__name__, e, where()))

    try:
        res = explore(one, C.CUR[0])
    except Unsupported as e:
        return "unsupported", str(e), n[0]
    except (Split, DivSplit) as e:
        return "unsupported", "range split outside a sum: %r" % (e,), n[0]
    finally:
        C.DEADLINE[0] = None
    for c, r in res:
        if r is None:
            continue
        if c.contradictory():
            continue
        bad.append((r[0], r[1], c))
    if not bad:
        if ENSURES[0] == 0 or not any(r is None for c, r in res):
            return "unsupported", "vacuous: no path reaches a postcondition", n[0]
        return "proved", "", n[0]
    order = {"definite": -1, "refuted": 0, "raises": 1, "unproved": 2, "unsupported": 3}
    bad.sort(key=lambda b: order[b[0]])
    return bad[0][0], bad[0][1], n[0], bad


def where():
    import sys

    tb = sys.exc_info()[2]
    out = []
    for f in traceback.extract_tb(tb):
        if "/philtorch/" in f.filename:
            out.append("%s:%d" % (f.filename.rsplit("/philtorch/", 1)[1], f.lineno))
    return "[%s]" % " ".join(out[-2:]) if out else ""


def covering(rows, t=3):
    """A subset of the rows (tuples) that contains every combination of t columns' values occurring in them: what the
    quick tier runs; the thorough tier runs all."""
    import itertools

    rows = list(rows)
    cols = list(itertools.combinations(range(len(rows[0])), min(t, len(rows[0]))))
    tup = [[(c, tuple(str(r[k]) for k in c)) for c in cols] for r in rows]
    need = set(x for ts in tup for x in ts)
    out = set()
    while need:
        best = max(range(len(rows)), key=lambda k: (sum(x in need for x in tup[k]), -k))
        out.add(rows[best])
        need -= set(tup[best])
    return out


def cover_random(rows, t, keys=(), seed=0):
    """A subset of the rows containing every combination of t columns' values that occurs (fast, not minimal), and
    every value of the given key functions."""
    import itertools
    import random

    rows = list(rows)
    rnd = random.Random(seed)
    order = list(rows)
    rnd.shuffle(order)
    cols = list(itertools.combinations(range(len(rows[0])), min(t, len(rows[0]))))
    seen, out = set(), set()
    for r in order:
        ks = {(c, tuple(r[k] for k in c)) for c in cols} | {("key", j, k(r)) for j, k in enumerate(keys)}
        if not ks <= seen:
            seen |= ks
            out.add(r)
    return out
