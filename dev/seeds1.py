H = "import torch\nimport philtorch\nfrom philtorch import lti, lpv\ntorch.manual_seed(0)\ntorch.set_default_dtype(torch.float64)\n"
SEEDS = {}
def add(i, **k): k["demo"] = H + k["demo"]; SEEDS[i] = k
LT, PT = "philtorch/lti/", "philtorch/lpv/"
add("s01", property="C04", file="philtorch/csrc/host_lti_recur.cpp", old="if (a.dim() == 1 && a.numel() == n_batches)", new="if (a.dim() == 1)",
    needs="a single-element coefficient tensor together with a batch larger than one", breaks="the kernel reads coefficients past the end of the one-element tensor",
    demo="""a = torch.tensor([0.5, 9., 9., 9.])[:1]; zi = torch.randn(4); x = torch.randn(4, 6)
y = torch.ops.philtorch.lti_recur(a, zi, x)
h = zi
for t in range(6):
    h = 0.5 * h + x[:, t]; assert torch.allclose(y[:, t], h)
""")
add("s02", property="C04", file="philtorch/csrc/host_recurN.cpp", nth=1, old="auto A_contiguous = at::pad(A, {0, 0, 0, 0, 1, 0}).contiguous();", new="auto A_contiguous = at::pad(A, {0, 0, 0, 0, 1, 0});",
    needs="batched state matrices stored in channels-last memory layout", breaks="the kernel walks the matrices as if they were row-major",
    demo="""B, T, M = 3, 5, 4
A = torch.randn(B, T, M, M).to(memory_format=torch.channels_last); zi = torch.randn(B, M); x = torch.randn(B, T, M)
y = torch.ops.philtorch.recurN(A, zi, x)
h = zi
for t in range(T):
    h = (A[:, t] @ h[..., None])[..., 0] + x[:, t]; assert torch.allclose(y[:, t], h)
""")
add("s03", property="C11", file="philtorch/__init__.py", old="padded_out.flatten().conj() @ flipped_grad_x.flip(1).flatten()", new="padded_out.flatten() @ flipped_grad_x.flip(1).flatten()",
    needs="complex signals with one coefficient shared by the batch, through the registered operator", breaks="the gradient of the shared coefficient misses a conjugate",
    demo="""c = torch.complex128
a = torch.randn((), dtype=c, requires_grad=True); zi = torch.randn(2, dtype=c); x = torch.randn(2, 5, dtype=c)
assert torch.autograd.gradcheck(torch.ops.philtorch.lti_recur, (a, zi, x))
""")
add("s04", property="C12", file=PT + "ssm.py", old="            padded_y = torch.cat([zi.unsqueeze(1), y[:, :-1]], dim=1)\n            fwd_A = (grad_A @ padded_y", new="            padded_y = torch.cat([fwd_zi.unsqueeze(1) if grad_zi is None else zi.unsqueeze(1), y[:, :-1]], dim=1)\n            fwd_A = (grad_A @ padded_y",
    needs="a tangent for the state matrices while the (non-zero) initial state has none", breaks="the first step's tangent loses the contribution of the initial state",
    demo="""import torch.autograd.forward_ad as fwAD
from philtorch.lpv.ssm import MatrixRecurrence as R
A, zi, x, dA = torch.randn(4, 3, 3), torch.randn(2, 3), torch.randn(2, 4, 3), torch.randn(4, 3, 3)
with fwAD.dual_level():
    t = fwAD.unpack_dual(R.apply(fwAD.make_dual(A, dA), zi, x)).tangent
e = 1e-6
num = (R.apply(A + e * dA, zi, x) - R.apply(A - e * dA, zi, x)) / (2 * e)
assert torch.allclose(t, num, atol=1e-6)
""")
add("s05", property="C13", file=LT + "filtering.py", old="    if IminusA.ndim == 2 and B.ndim > 1:", new="    if IminusA.ndim == 2 and B.ndim > 2:",
    needs="one denominator shared by a batch of numerators whose count equals the filter order", breaks="the batch of right-hand sides is solved as one matrix, columns for rows",
    demo="""a = torch.tensor([.3, -.2, .1]); b = torch.randn(3, 4)
zi = lti.lfilter_zi(a, b) if hasattr(lti, 'lfilter_zi') else __import__('philtorch.lti.filtering', fromlist=['x']).lfilter_zi(a, b)
for k in range(3):
    from philtorch.lti.filtering import lfilter_zi
    assert torch.allclose(zi[k], lfilter_zi(a, b[k]))
""")
add("s06", property="C05", file=LT + "ssm.py", old="        zf = h[:, -1, :] if return_zf else None", new="        zf = h[:, -1:, :].squeeze() if return_zf else None",
    needs="a batch of exactly one with an initial state", breaks="the final state loses its batch axis",
    demo="""from philtorch.lti.ssm import state_space
y, zf = state_space(0.3 * torch.randn(3, 3), torch.randn(1, 7, 3), zi=torch.randn(1, 3), unroll_factor=1)
assert zf.shape == (1, 3), zf.shape
""")
add("s07", property="C09", file=PT + "filtering.py", old="        return y, unfolded_x[:, -1, 1:].flip(1)", new="        return y, x[:, 1 - b.size(2) :].flip(1)",
    needs="a chunk shorter than the filter memory (or a single-tap filter)", breaks="the returned memory drops the carried-over samples",
    demo="""from philtorch.lpv.filtering import fir
b = torch.randn(2, 3, 6); x = torch.randn(2, 3); zi = torch.randn(2, 5)
y, zf = fir(b, x, zi)
assert torch.allclose(zf, torch.cat([x.flip(1), zi], 1)[:, :5]) if zf.shape == (2, 5) else False
""")
add("s08", property="C14", file=LT + "filtering.py", old="    if padlen is None:\n", new="    if not padlen:\n",
    needs="an explicit padding length of zero", breaks="no padding is read as the default padding",
    demo="""from philtorch.lti.filtering import filtfilt, lfilter, lfilter_zi
b, a, x = torch.tensor([1., .5, .2]), torch.tensor([-.3, .2]), torch.randn(40)
y = filtfilt(b, a, x, padlen=0)
zi = lfilter_zi(a, b)
f = lambda s: lfilter(b, a, s, zi=zi * s[:1])[0]
assert torch.allclose(y, f(f(x).flip(0)).flip(0))
""")
add("s09", property="C16", file="philtorch/poly.py", old="    r = r[..., m - n + 1 :]", new="    r = r[..., -n:]",
    needs="a divisor of degree zero", breaks="the remainder is not shorter than the divisor",
    demo="""from philtorch.poly import polydiv
q, r = polydiv(torch.randn(2, 4), torch.tensor([2.]))
assert r.shape == (2, 0) and q.shape == (2, 4)
""")
add("s10", property="C23", file="philtorch/prototype/poly.py", old="torch.abs(r[0]) < 1e-8", new="torch.abs(r[0]) < 1e-3",
    needs="a remainder whose leading coefficient is small but not negligible", breaks="the remainder loses its leading coefficient, so dividend = quotient x divisor + remainder fails",
    demo="""from philtorch.prototype.poly import polydiv, polymul, polyadd
v, q0, r0 = torch.tensor([1., .5, -2.]), torch.tensor([2., 1.]), torch.tensor([5e-4, 3e-4])
u = polyadd(polymul(v, q0), r0)
q, r = polydiv(u, v)
assert torch.allclose(polyadd(polymul(v, q), r), u, atol=1e-10)
""")
add("s11", property="C01", file=LT + "ssm.py", old="A_powers_plus_I[..., 1:, out_idx, 0],", new="A_powers_plus_I[..., 1:, 0, out_idx],",
    needs="a scalar input per step, a selected state other than the first, blocked evaluation, a non-symmetric A", breaks="the block response uses the transposed matrix entry",
    demo="""from philtorch.lti.ssm import state_space_recursion as r
A, zi, x = 0.5 * torch.randn(3, 3), torch.randn(2, 3), torch.randn(2, 12)
assert torch.allclose(r(A, zi, x, unroll_factor=4, out_idx=1), r(A, zi, x, unroll_factor=1, out_idx=1))
""")
add("s12", property="C02", file=PT + "ssm.py", old="        output = torch.cat([output, initials[:, 1:, out_idx, None]], dim=2).flatten(", new="        output = torch.cat([output, initials[:, 1:, :1]], dim=2).flatten(",
    needs="blocked evaluation with a selected state other than the first", breaks="the last sample of every block is that of state 0",
    demo="""from philtorch.lpv.ssm import state_space_recursion as r
A, zi, x = 0.5 * torch.randn(12, 3, 3), torch.randn(2, 3), torch.randn(2, 12, 3)
assert torch.allclose(r(A, zi, x, unroll_factor=4, out_idx=2), r(A, zi, x, unroll_factor=1, out_idx=2))
""")
add("s13", property="C21", file="philtorch/__init__.py", nth=1, old="""        torch._check(
            x.shape[1] == A.shape[-3],
            "x's second dimension must match A's last-3 dimension.",
        )
""", new="", needs="tracing with a number of matrices different from the number of samples", breaks="tracing accepts what the operator rejects",
    demo="""from torch._subclasses.fake_tensor import FakeTensorMode
with FakeTensorMode() as m:
    A, zi, x = torch.empty(4, 3, 3), torch.empty(2, 3), torch.empty(2, 5, 3)
    try: torch.ops.philtorch.recurN(A, zi, x)
    except Exception: raise SystemExit(0)
raise SystemExit(1)
""")
add("s14", property="C06", file=PT + "ssm.py", old="            case (C_batch, CM) if C_batch == batch_size and CM == M:\n                Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)", new="            case (C_batch, CM) if C_batch == batch_size and CM == M:\n                Ch = torch.linalg.vecdot(C.unsqueeze(1), h)",
    needs="a complex per-batch output vector", breaks="the output uses the conjugate of C",
    demo="""from philtorch.lpv.ssm import state_space
c = torch.complex128
A, x, C = 0.3 * torch.randn(5, 3, 3, dtype=c), torch.randn(2, 5, 3, dtype=c), torch.randn(2, 3, dtype=c)
y = state_space(A, x, C=C); h = state_space(A, x)
assert torch.allclose(y, (C[:, None] * h).sum(-1))
""")
add("s15", property="C03", file=PT + "recur.py", old="batch_size, N = x.size(0), x.size(1)", new="batch_size, N = x.size(0), a.size(0)",
    needs="per-batch coefficient sequences whose batch size is not larger than the block size", breaks="x", demo="""from philtorch.lpv.recur import linear_recurrence as r
a, i, x = torch.randn(2, 9), torch.randn(2), torch.randn(2, 9)
assert torch.allclose(r(a, i, x, unroll_factor=4), r(a, i, x))
""")
add("s16", property="C22", file="philtorch/prototype/nl.py", old="        if torch.allclose(new_y, y[:, 1:], atol=atol, rtol=rtol):", new="        if torch.allclose(new_y[:, -1], y[:, -1], atol=atol, rtol=rtol):",
    needs="an update that leaves the last instant unchanged while earlier instants still move", breaks="iterations stop early",
    demo="""from philtorch.prototype.nl import newton_solve
f = lambda y, x: (1 - y) * y * x
B, L = 1, 8
x = torch.rand(B, L, 1) + 1.5; x[:, -1] = 0
init = torch.full((B, 1), .3); y0 = torch.full((B, L, 1), .9); y0[:, -1] = 0
r, k = newton_solve(f, x, y0, init, max_iter=5)
h, e = init, []
for t in range(L): h = f(h, x[:, t]); e.append(h)
e = torch.stack(e, 1)
assert torch.allclose(r[:, :5], e[:, :5])
""")
