"""Run-time contract checking of the real philtorch code (real torch) against independent references.

A *case* is a JSON-able dict; everything a case needs is derived from it, so that a case is its own replay."""
import os, sys, json, time, random, traceback, hashlib, warnings

warnings.filterwarnings("ignore")
NOEXT = os.environ.get("PHIL_NOEXT") == "1"
sys.path.insert(0, os.environ.get("PHIL_PATH", "/repo"))
if NOEXT:
    sys.modules["philtorch._C"] = None
import numpy as np
import torch

torch.set_num_threads(2)
import philtorch
from philtorch import lti, lpv, mat, poly
import philtorch.lti.recur, philtorch.lti.ssm, philtorch.lpv.ssm, philtorch.lpv.recur, philtorch.lti.interp

EXT = bool(philtorch.EXTENSION_LOADED)
if not NOEXT and os.environ.get("PHIL_NEED_EXT") == "1" and not EXT:
    print("extension not loaded", file=sys.stderr)
    sys.exit(3)


class Bad(Exception):
    """the real code broke its contract on this input"""


SKIP = "skip"


def rng_of(case, salt=""):
    h = hashlib.sha256((json.dumps(case, sort_keys=True) + salt).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def rnd(rng, *shape, cplx=False, scale=1.0):
    v = rng.standard_normal(shape) * scale
    if cplx:
        v = (v + 1j * rng.standard_normal(shape) * scale) / np.sqrt(2)
    return v


def layout(v, kind, rng):
    """numpy array -> torch tensor with the wanted memory layout (same values)"""
    if np.ndim(v) == 0:
        return torch.tensor(np.asarray(v)[()])
    t = torch.from_numpy(np.ascontiguousarray(v))
    if kind == "c" or t.ndim == 0:
        return t.clone()
    if kind == "f":  # transposed storage
        return t.permute(*reversed(range(t.ndim))).contiguous().permute(*reversed(range(t.ndim)))
    if kind == "s":  # strided with gaps and an offset
        shp = [2 * s + 1 for s in t.shape]
        base = torch.full(shp, 7.25, dtype=t.dtype)
        view = base[tuple(slice(1, None, 2) for _ in shp)]
        view.copy_(t)
        return view
    if kind == "l":  # channels-last like storage: the second axis is the fastest
        order = [0] + list(range(2, t.ndim)) + [1] if t.ndim > 1 else [0]
        inv = [order.index(i) for i in range(t.ndim)]
        return t.permute(*order).contiguous().permute(*inv)
    if kind == "j":  # lazily conjugated view of the conjugate values
        return t.conj().resolve_conj().conj() if t.is_complex() else t.clone()
    raise AssertionError(kind)


def T(v, kind="c", rng=None):
    return layout(np.asarray(v), kind, rng)


class Frame:
    """C20: arguments must be unchanged after the call"""

    def __init__(self, *ts):
        self.ts = [t for t in ts if isinstance(t, torch.Tensor)]
        self.copies = [t.detach().clone() for t in self.ts]
        self.vers = [t._version for t in self.ts]

    def check(self):
        for i, (t, c) in enumerate(zip(self.ts, self.copies)):
            same = torch.equal(torch.nan_to_num(t.detach()), torch.nan_to_num(c))
            if not same:
                raise Bad(f"argument {i} of shape {tuple(t.shape)} was modified by the call")


def npy(t):
    return t.detach().resolve_conj().resolve_neg().cpu().numpy()


def close(got, want, what, tol=1e-7):
    if isinstance(got, torch.Tensor):
        got = npy(got)
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Bad(f"{what}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return
    scale = 1.0 + float(np.max(np.abs(want)))
    err = np.abs(got - want)
    if not np.all(np.isfinite(got)) or float(err.max()) > tol * scale:
        k = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err, np.inf))), err.shape)
        raise Bad(
            f"{what}: at {tuple(int(i) for i in k)} got {got[k]!r}, expected {want[k]!r} (scale {scale:.3g})"
        )


def call(f, *a, **k):
    """call real code on an input its contract accepts"""
    try:
        return f(*a, **k)
    except Bad:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(x.filename)}:{x.lineno}" for x in tb if "philtorch" in x.filename][-2:]
        raise Bad(f"call raised {type(e).__name__}: {str(e)[:200]} at {where}")


def dd(case, kw, **defaults):
    """The keyword arguments kw, in every second case without those that equal the documented default."""
    if case["s"] % 2:
        return kw
    same = lambda a, b: a is b or (a is not None and b is not None and type(a) in (bool, int, str) and type(a) is type(b) and a == b)
    return {k: v for k, v in kw.items() if k not in defaults or not same(v, defaults[k])}


def dtype_is(t, ref, what):
    if t.dtype != ref:
        raise Bad(f"{what}: dtype {t.dtype}, expected {ref}")


# ---------------------------------------------------------------- references (plain loops, numpy)


def stable_mats(rng, lead, M, cplx=False):
    A = rnd(rng, *lead, M, M, cplx=cplx)
    return A * (0.9 / np.sqrt(M))


def ref_states(A, zi, u):
    """A (B,N,M,M), zi (B,M), u (B,N,M) -> h (B,N,M), h[t] = A[t] h[t-1] + u[t]"""
    B, N, M = u.shape
    out = np.zeros((B, N, M), dtype=np.result_type(A, zi, u))
    for b in range(B):
        h = zi[b]
        for t in range(N):
            h = np.array([sum(A[b, t, i, j] * h[j] for j in range(M)) + u[b, t, i] for i in range(M)])
            out[b, t] = h
    return out


def ref_ss(A, Bm, C, D, x, zi):
    """A (B,N,M,M), Bm (B,N,M,F), C (B,N,P,M), D (B,N,P,F), x (B,N,F) -> y (B,N,P), states before (B,N,M), final"""
    B, N, F = x.shape
    M = A.shape[-1]
    P = C.shape[-2]
    dt = np.result_type(A, Bm, C, D, x, zi)
    y = np.zeros((B, N, P), dtype=dt)
    hs = np.zeros((B, N, M), dtype=dt)
    zf = np.zeros((B, M), dtype=dt)
    for b in range(B):
        h = zi[b].astype(dt)
        for t in range(N):
            hs[b, t] = h
            y[b, t] = C[b, t] @ h + D[b, t] @ x[b, t]
            h = A[b, t] @ h + Bm[b, t] @ x[b, t]
        zf[b] = h
    return y, hs, zf


# textbook filter structures with per-sample coefficients b (B,N,K) a (B,N,M)  (a excludes the leading 1)


def ref_df1(b, a, x):
    B, N = x.shape
    y = np.zeros((B, N), dtype=np.result_type(b, a, x))
    for i in range(B):
        for n in range(N):
            v = sum(b[i, n, k] * x[i, n - k] for k in range(b.shape[2]) if n >= k)
            y[i, n] = v - sum(a[i, n, k] * y[i, n - 1 - k] for k in range(a.shape[2]) if n - 1 - k >= 0)
    return y


def ref_df2(b, a, x, zi=None):
    """delay line w[0]=most recent"""
    B, N = x.shape
    L = max(b.shape[2] - 1, a.shape[2])
    dt = np.result_type(b, a, x)
    y = np.zeros((B, N), dtype=dt)
    zf = np.zeros((B, L), dtype=dt)
    for i in range(B):
        w = np.zeros(L, dtype=dt) if zi is None else zi[i].astype(dt)
        for n in range(N):
            v = x[i, n] - sum(a[i, n, k] * w[k] for k in range(a.shape[2]))
            y[i, n] = b[i, n, 0] * v + sum(b[i, n, k] * w[k - 1] for k in range(1, b.shape[2]))
            w = np.concatenate([[v], w[:-1]]) if L else w
        zf[i] = w
    return y, zf


def ref_tdf2(b, a, x, zi=None):
    B, N = x.shape
    L = max(b.shape[2] - 1, a.shape[2])
    dt = np.result_type(b, a, x)
    y = np.zeros((B, N), dtype=dt)
    zf = np.zeros((B, L), dtype=dt)
    for i in range(B):
        w = np.zeros(L, dtype=dt) if zi is None else zi[i].astype(dt).copy()
        for n in range(N):
            yn = b[i, n, 0] * x[i, n] + (w[0] if L else 0)
            y[i, n] = yn
            nw = np.zeros(L, dtype=dt)
            for k in range(L):
                nw[k] = w[k + 1] if k + 1 < L else 0
                if k + 1 < b.shape[2]:
                    nw[k] += b[i, n, k + 1] * x[i, n]
                if k < a.shape[2]:
                    nw[k] -= a[i, n, k] * yn
            w = nw
        zf[i] = w
    return y, zf


def ref_tdf1(b, a, x):
    """transposed direct form I: transposed all-pole section, then transposed FIR section"""
    B, N = x.shape
    dt = np.result_type(b, a, x)
    one = np.ones(b.shape[:2] + (1,))
    y = np.zeros((B, N), dtype=dt)
    for i in range(B):
        M, K = a.shape[2], b.shape[2]
        v = np.zeros(N, dtype=dt)
        sa = np.zeros(M + 1, dtype=dt)
        sb = np.zeros(K, dtype=dt)
        for n in range(N):
            v = x[i, n] + sa[0]
            sa = np.concatenate([sa[1:], [0]])
            for k in range(M):
                sa[k] -= a[i, n, k] * v
            y[i, n] = b[i, n, 0] * v + sb[0]
            sb = np.concatenate([sb[1:], [0]])
            for k in range(1, K):
                sb[k - 1] += b[i, n, k] * v
    return y


def tv(c, B, N):
    """(K,) or (B,K) -> (B,N,K)"""
    c = np.asarray(c)
    if c.ndim == 1:
        c = c[None]
    return np.broadcast_to(c[:, None, :], (B, N, c.shape[-1]))


def tvn(c, B, N):
    """(N,K) or (B,N,K) -> (B,N,K)"""
    c = np.asarray(c)
    if c.ndim == 2:
        c = c[None]
    return np.broadcast_to(c, (B, N, c.shape[-1]))


def stable_poly(rng, M, cplx=False, separated=False):
    """coefficients a_1..a_M (without the leading 1) of a polynomial with roots inside the unit circle"""
    if M == 0:
        return np.zeros(0)
    if cplx:
        r = [0.3 + 0.5 * rng.random() for _ in range(M)]
        roots = [ri * np.exp(2j * np.pi * (k + 0.6 * rng.random()) / M) for k, ri in enumerate(r)]
        return np.poly(roots)[1:]
    roots = []
    n2 = M // 2
    for k in range(n2):
        th = np.pi * (k + 0.3 + 0.4 * rng.random()) / n2
        r = 0.4 + 0.4 * rng.random()
        roots += [r * np.exp(1j * th), r * np.exp(-1j * th)]
    if M % 2:
        roots.append((0.25 + 0.1 * rng.random()) * (1 if rng.random() < 0.5 else -1))
    return np.real(np.poly(roots))[1:]


# ---------------------------------------------------------------- driver


def run_cases(cases, runner, budget_s, max_fail=3, stop=None):
    t0 = time.time()
    n = skipped = 0
    fails = []
    samples = []
    seen = set()
    exhausted = True
    for case in cases:
        if time.time() - t0 > budget_s:
            exhausted = False
            break
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        if len(samples) < 4 and n % 37 == 1:
            samples.append(case)
        try:
            if runner(case) == SKIP:
                skipped += 1
        except Bad as e:
            fails.append({"case": case, "reason": str(e)})
            if len(fails) >= max_fail:
                exhausted = False
                break
    return {"evaluations": n, "distinct": len(seen) - skipped, "fails": fails, "samples": samples,
            "exhausted_plan": exhausted, "wall_s": time.time() - t0}
