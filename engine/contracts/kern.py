"""Contracts of the compiled CPU operators, verified on the C++ source (engine 2)."""
from spec import *
import load, cxx
from contracts import ops
from contracts.ops import mentry, H_state
from contracts.scalar import H_lti

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


def layouts(H):
    """Candidate invariants: the entries already written hold the states (rows shifted by the initial state, or not)."""
    def shifted(by):
        def f(b):
            if len(b.sh) != H.ndim:
                return None
            return lambda i: app(H, (i[0], i[1] - by) + tuple(i[2:]))

        return f

    return [("row t holds state t - 1", shifted(1)), ("row t holds state t", shifted(0))]


def dt(real):
    return "dtype:Double" if real else "dtype:ComplexDouble"


def ob_scalar(adim, real):
    def run():
        B, N = size("B"), size("N")
        if adim == 1:
            requires(B > 1)
        a = arg("a", {0: (), 1: (1,), "B": (B,)}[adim], real)
        zi, x = arg("zi", (B,), real), arg("x", (B, N), real)
        H = H_lti(a, zi, x, "H")
        r, m = cxx.run_operator("lti_recur", (a, zi, x), (dt(real),) * 3, layouts(H))
        ensures(r.t, (B, N), lambda i: app(H, i), "the operator returns the states of the recurrence", real)

    return run


def ob_matrix(op, varying, ab, real):
    def run():
        B, N, M = size("B"), size("N"), size("M")
        A = arg("A", ((B,) if ab else ()) + ((N,) if varying else ()) + (M, M), real)
        zi, x = arg("zi", (B, M), real), arg("x", (B, N, M), real)
        H = H_state(mentry(A, ("B" if ab else "") + ("N" if varying else "")), zi, x, M, real)
        r, m = cxx.run_operator(op, (A, zi, x), (dt(real),) * 3, layouts(H), [T.P_(M)])
        ensures(r.t, (B, N, M), lambda i: app(H, i), "the operator returns the states of the recurrence", real)

    return run


for real in (True, False):
    r = "real" if real else "complex"
    for ad in (0, 1, "B"):
        add(["C04", "C01"], "kernel lti_recur a:%s %s" % (ad, r), "csrc/host_lti_recur.cpp", ob_scalar(ad, real))
    for op, varying, src in (("lti_recurN", False, "host_lti_recurN.cpp"), ("lti_recur2", False, "host_lti_recurN.cpp"), ("recurN", True, "host_recurN.cpp"), ("recur2", True, "host_recurN.cpp")):
        for ab in (False, True):
            add(["C04"], "kernel %s A:%s %s" % (op, "batched" if ab else "shared", r), "csrc/" + src, ob_matrix(op, varying, ab, real))


# ---------------------------------------------------------------- operands whose sizes do not fit
def outcome(fn):
    """(result, None), or (None, the error) when the real code raises."""
    try:
        return fn(), None
    except ERRORS as e:
        if not (isinstance(e, T.TorchError) or classify(e)):
            raise
        return None, e


def free(name, dims, real=True):
    return arg(name, tuple(size("%s%d" % (name, k), 0) for k in range(dims)), real)


def fits(op, A, zi, x):
    """The operands the operator is specified for."""
    c = cur()

    def eq(p, q):
        return c.eq0(c.n(T.P_(p)) - c.n(T.P_(q)))

    if op == "lti_recur":
        if x.dim() != 2 or zi.dim() != 1 or A.dim() > 1 or not eq(zi.sh[0], x.sh[0]):
            return False
        return A.dim() == 0 or eq(A.sh[0], x.sh[0]) or eq(A.sh[0], 1)
    k = 1 if op.startswith("recur") else 0
    if x.dim() != 3 or zi.dim() != 2 or A.dim() not in (2 + k, 3 + k):
        return False
    if not (eq(A.sh[-1], A.sh[-2]) and eq(A.sh[-1], x.sh[2]) and eq(zi.sh[1], x.sh[2]) and eq(zi.sh[0], x.sh[0])):
        return False
    if k and not eq(A.sh[-3], x.sh[1]):
        return False
    return A.dim() == 2 + k or eq(A.sh[0], x.sh[0])


def ob_safe(op, dims, real, layout=False):
    """Any operands: either rejected, or their sizes fit, every access is inside its buffer and the result has the shape of x."""
    def run():
        A, zi, x = free("A", dims[0], real), free("zi", dims[1], real), free("x", dims[2], real)
        r, e = outcome(lambda: cxx.run_operator(op, (A, zi, x), (dt(real),) * 3, (), (x.sh[2],) if len(x.sh) > 2 else (), havoc=True))
        spec_ok = fits(op, A, zi, x)
        ENSURES[0] += 1
        if e is not None:
            if spec_ok:
                raise Refuted("operands that fit are rejected: %s" % e)
            return
        if not spec_ok:
            raise Refuted("operands whose sizes are inconsistent are accepted")
        t = r[0].t
        same_shape(t, x.shape, "shape of the result")
        if bool(t._real) != real:
            raise Refuted("type of the result")
        if layout and r[0].contig is not True:
            raise (Refuted if r[0].contig is False else Unproved)("the result is not contiguous")

    return run


def ob_types(op, dims, kinds):
    """Operands of different element types are rejected."""
    def run():
        ts = [free(n, d, not k.startswith("Complex")) for n, d, k in zip(("A", "zi", "x"), dims, kinds)]
        r, e = outcome(lambda: cxx.run_operator(op, ts, ["dtype:" + k for k in kinds], (), (), havoc=True))
        ENSURES[0] += 1
        if e is None:
            raise Refuted("operands of types %s are accepted" % (kinds,))

    return run


def ob_fake(op, dims, real):
    """The abstract kernel accepts what the real one accepts, with the same result, and rejects what it rejects."""
    def run():
        load.FAKES.clear()
        load.Loader(ext=True).module("philtorch")
        fake = load.FAKES["philtorch::" + op]
        A, zi, x = free("A", dims[0], real), free("zi", dims[1], real), free("x", dims[2], real)
        ok = fits(op, A, zi, x)  # acceptance by the real operator: obligation "safe"
        f, e = outcome(lambda: fake(A, zi, x))
        ENSURES[0] += 1
        if not ok:
            if e is None:
                raise Refuted("operands the operator rejects are accepted by the abstract kernel")
            return
        if e is not None:
            if op.endswith("2") and not cur().eq0(x.sh[2] - 2):
                return  # never called with another number of states
            raise Refuted("operands the operator accepts are rejected by the abstract kernel: %s" % e)
        same_shape(f, x.shape, "shape of the abstract result")
        if bool(f._real) != real:
            raise Refuted("type of the abstract result")
        if f.lay != "contiguous":
            raise Refuted("layout of the abstract result: %s (the operator returns a contiguous tensor)" % f.lay)

    return run


def all_dims(op):
    if op == "lti_recur":
        return [(a, z, n) for a in (0, 1, 2) for z in (0, 1, 2) for n in (1, 2, 3)]
    k = 1 if op.startswith("recur") else 0
    return [(a, z, n) for a in (1 + k, 2 + k, 3 + k, 4 + k) for z in (1, 2, 3) for n in (2, 3, 4)]


SRC = {"lti_recur": "host_lti_recur.cpp", "lti_recurN": "host_lti_recurN.cpp", "lti_recur2": "host_lti_recurN.cpp", "recurN": "host_recurN.cpp", "recur2": "host_recurN.cpp"}
GOOD = {"lti_recur": [(0, 1, 2), (1, 1, 2)], "lti_recurN": [(2, 2, 3), (3, 2, 3)], "lti_recur2": [(2, 2, 3), (3, 2, 3)], "recurN": [(3, 2, 3), (4, 2, 3)], "recur2": [(3, 2, 3), (4, 2, 3)]}
for op in SRC:
    for dims in all_dims(op):
        for real in (True, False):
            if not real and dims not in GOOD[op]:
                continue
            r = "real" if real else "complex"
            nm = "A:%dd zi:%dd x:%dd %s" % (dims + (r,))
            add(["C04"], "kernel %s any sizes %s" % (op, nm), "csrc/" + SRC[op], ob_safe(op, dims, real))
            add(["C21"], "abstract kernel %s %s" % (op, nm), "__init__.py register_fake philtorch::" + op, ob_fake(op, dims, real))
    for dims in GOOD[op]:
        add(["C21"], "kernel %s A:%dd layout of the result" % (op, dims[0]), "csrc/" + SRC[op], ob_safe(op, dims, True, True))
    for kinds in (("Double", "Float", "Double"), ("Float", "Double", "Double"), ("Double", "Double", "Float"), ("ComplexDouble", "Double", "Double"), ("Double", "ComplexDouble", "ComplexDouble"), ("Double", "Double", "ComplexDouble"), ("ComplexDouble", "Double", "ComplexDouble")):
        for dims in GOOD[op]:
            add(["C04"], "kernel %s A:%dd mixed types %s" % (op, dims[0], "/".join(kinds)), "csrc/" + SRC[op], ob_types(op, dims, kinds))
