"""Contract of lpv/ssm.py: state_space."""
from spec import *
import load
from contracts import ops
from contracts.ops import mentry
from contracts.scalar import need
from contracts.ltissm import drive, pick_out
from contracts.ltistate import operand, mget, sizes
from contracts.lpvssm import lead, contract_rec, contract_ext

OBLIGATIONS = []


def add(pids, name, function, fn, **k):
    OBLIGATIONS.append(dict(pids=pids, name=name, function=function, fn=fn, **k))


# letters: b batch, n time, m states, f features, o outputs
B_FORMS = {2: (None, "m", "nm", "bm", "bnm"), 3: (None, "mf", "nmf", "bmf", "bnmf")}
C_FORMS = (None, "m", "nm", "bm", "om", "bnm", "nom", "bom", "bnom")
D_FORMS = {2: {0: ("", "1", "n", "b", "bn"), 1: ("o", "no", "bo", "bno")}, 3: {0: ("f", "nf", "bf", "bnf"), 1: ("of", "nof", "bof", "bnof")}}


def vecout(cf, oi):
    return 1 if not oi and cf in (None, "om", "nom", "bom", "bnom") else 0


def unambiguous(d, bf, cf, df):
    """Shapes that could be read in two ways follow the order in the documentation; operands with full batch and
    time axes are never ambiguous, and stay unrestricted (see DESIGN.md)."""
    B, N, O = d["b"], d["n"], d["o"]
    if bf in ("bm", "bmf"):
        requires(B != N)
    if cf == "bm":
        requires(B != N)
    if cf == "om":
        requires(O != N)
        requires(O != B)
    for k, f in ((0, cf), (1, df)):
        if f in ("nom", "nof", "no"):
            if B == N:
                requires(O != N)
        if f in ("bom", "bof", "bo"):
            requires(O != N)
            requires(B != N)
    if df in ("b", "bf"):
        requires(B != N)
    if df == "o":
        requires(O != N)
        requires(O != B)
        requires(O != 1)
    if df == "of":
        requires(O != N)
        requires(O != B)


def drive_B(Bt, form, x, d):
    if Bt is None:
        return drive(x)
    g, fx = mget(Bt, form), T.freeze(x)
    if "f" in form:
        return lambda b, t, i: Sum(ZERO, T.P_(d["f"]), lambda q: g(b=b, n=t, m=i, f=q) * fx((b, t, q)))
    return lambda b, t, i: g(b=b, n=t, m=i) * fx((b, t))


def out_C(C, form, h, M):
    if C is None:
        return lambda b, t, o: h(b, t, o)
    g = mget(C, form)
    return lambda b, t, o=None: Sum(ZERO, T.P_(M), lambda q: g(b=b, n=t, m=q, o=o) * h(b, t, q))


def out_D(D, form, x, d):
    g, fx = mget(D, form), T.freeze(x)
    if "f" in form:
        return lambda b, t, o=None: Sum(ZERO, T.P_(d["f"]), lambda q: g(b=b, n=t, o=o, f=q) * fx((b, t, q)))
    return lambda b, t, o=None: g(b=b, n=t, o=o) * fx((b, t))


def state_spec(A, x, Bm, bf, d, zi, zk, real, name="H"):
    """h[b,t] = A h[b,t-1] + B x[b,t] (state after sample t), h[b,-1] = zi."""
    B, N, M = d["b"], d["n"], d["m"]
    MP = T.P_(M)
    fz = mget(zi, zk) if zi is not None else None
    fb, fa = drive_B(Bm, bf, x, d), mentry(A, lead(A))
    s = new_rec(name, (T.P_(B), T.P_(N), MP), 1, None, None, real)
    s.rule = lambda i: Sum(ZERO, MP, lambda j: fa(i[0], i[1], i[2], j) * app(s, (i[0], i[1] - 1, j))) + fb(i[0], i[1], i[2])
    s.init = lambda i: fz(b=i[0], m=i[2]) if fz else ZEROE
    return s


def ob_state_space(ext, ad, xd, bf, cf, df, zk, uk, oi, real):
    def run():
        m = load.Loader(ext=ext).module("philtorch.lpv.ssm")
        d = sizes(xd)
        B, N, M = d["b"], d["n"], d["m"]
        if xd == 3 and bf is None:
            d["f"] = M
        if cf is None and not oi:
            d["o"] = M
        unambiguous(d, bf, cf, df)
        A = arg("A", ((B,) if ad == 4 else ()) + (N, M, M), real)
        x = arg("x", (B, N) + ((d["f"],) if xd == 3 else ()), real)
        Bm, C, D = operand("B", bf, d, real), operand("C", cf, d, real), operand("D", df, d, real)
        zi = operand("zi", zk, d, real)
        o = pick_out(oi, M)
        U = size("U") if uk == "U" else uk
        m.state_space_recursion = contract_rec("Y")
        m._ext_ss_recur = contract_ext
        r = m.state_space(A, x, Bm, C, D, zi, unroll_factor=U, out_idx=o)
        s = state_spec(A, x, Bm, bf, d, zi, zk, real)
        h = lambda b, t, i: app(s, (b, t - 1, i))
        vo = vecout(cf, oi)
        fc = (lambda b, t, o_=None: h(b, t, T.P_(o))) if oi else out_C(C, cf, h, M)
        fd = out_D(D, df, x, d) if D is not None else None
        if zk is None:
            y = r
            if isinstance(r, tuple):
                raise Refuted("a final state is returned without zi")
        else:
            if not isinstance(r, tuple) or len(r) != 2:
                raise Refuted("no final state is returned")
            y, zf = r
            ensures(zf, (B, M), lambda i: app(s, (i[0], T.P_(N) - 1, i[1])), "zf = h after the last sample", real)
        ensures(y, (B, N) + ((d["o"],) if vo else ()), lambda i: toexpr(fc(*i)) + (fd(*i) if fd is not None else ZEROE), "y[t] = C[t] h[t] + D[t] x[t]", real)

    return run


GRID = []
for real in (True, False):
    for ext in (True, False):
        for ad in (3, 4):
            for xd in (2, 3):
                for bf in B_FORMS[xd]:
                    for cf in C_FORMS:
                        for oi in (0, 1):
                            if oi and cf is not None:
                                continue
                            for df in (None,) + D_FORMS[xd][vecout(cf, oi)]:
                                for zk in (None, "m", "bm"):
                                    for uk in (None, 1, "U"):
                                        GRID.append((real, ext, ad, xd, bf, cf, oi, df, zk, uk))


def name(g):
    real, ext, ad, xd, bf, cf, oi, df, zk, uk = g
    return "%s A:%dd x:%dd B:%s C:%s D:%s zi:%s unroll:%s%s %s" % ("ext" if ext else "no-ext", ad, xd, bf, cf, df, zk, uk, " out_idx" if oi else "", "real" if real else "complex")


KEYS = [lambda g: ("cd", g[3], g[5], g[6], g[7], g[0]), lambda g: ("b", g[3], g[4], g[6], g[8], g[0])]
QUICK = cover_random(GRID, 2, KEYS)
ALL = (cover_random(GRID, 3, KEYS) | QUICK) if THOROUGH else QUICK
for g in GRID:
    if g in ALL:
        real, ext, ad, xd, bf, cf, oi, df, zk, uk = g
        add(["C06"], "lpv/ssm.state_space " + name(g), "lpv/ssm.py:state_space", ob_state_space(ext, ad, xd, bf, cf, df, zk, uk, oi, real), thorough=g not in QUICK)
