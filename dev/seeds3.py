H = "import torch\nimport philtorch\nfrom philtorch import lti, lpv\ntorch.manual_seed(0)\ntorch.set_default_dtype(torch.float64)\n"
SEEDS = {}
def add(i, **k): k["demo"] = H + k["demo"]; SEEDS[i] = k
LT, PT = "philtorch/lti/", "philtorch/lpv/"
add("u01", property="C03", file=PT + "recur.py", old="torch.linalg.vecdot(unrolled_x.conj(), a_powers_plus_I)", new="torch.linalg.vecdot(a_powers_plus_I, unrolled_x)",
    needs="complex time-varying coefficients and blocked evaluation", breaks="block sums use conjugated products of the coefficients",
    demo="""from philtorch.lpv.recur import linear_recurrence as r
c = torch.complex128
a, i, x = 0.8 * torch.randn(2, 9, dtype=c), torch.randn(2, dtype=c), torch.randn(2, 9, dtype=c)
assert torch.allclose(r(a, i, x, unroll_factor=3), r(a, i, x))
""")
add("u02", property="C07", file=LT + "filtering.py", old="        & (a.dim() == 1)\n        & ((zi is None) or (zi.dim() == 1))\n", new="        & (a.dim() == 1)\n        & ((zi is None) or (zi.dim() == 1) or (zi.size(-1) > zi.size(0)))\n",
    needs="a one-dimensional signal with a batch of one initial condition", breaks="the batch axis of the initial condition is dropped from the results",
    demo="""b, a, x = torch.tensor([1., .5, .2]), torch.tensor([.3, .1]), torch.randn(7)
y, zf = lti.lfilter(b, a, x, zi=torch.ones(1, 2))
assert y.shape == (1, 7) and zf.shape == (1, 2)
""")
add("u03", property="C15", file="philtorch/mat.py", old="            .broadcast_to(A.shape)\n            .unsqueeze(-3)\n", new="            .unsqueeze(-3)\n",
    needs="power zero of a batch of matrices", breaks="the identity comes without the batch dimensions",
    demo="""from philtorch.mat import matrix_power_accumulate as f
assert f(torch.randn(4, 3, 3), 0).shape == (4, 1, 3, 3)
""")
add("u04", property="C17", file=LT + "interp.py", old="torch.cat([c[:, :1], c, c[:, -2:].flip(-1)], dim=1)", new="torch.cat([c[:, 1:2], c, c[:, -2:].flip(-1)], dim=1)",
    needs="SciPy boundary convention, first interpolation interval", breaks="the first sample is not reproduced",
    demo="""from philtorch.lti.interp import cubic_spline
x = torch.randn(2, 30)
assert torch.allclose(cubic_spline(x, 3, scipy_padding=True)[:, ::3], x, atol=1e-6)
""")
add("u05", property="C20", file=LT + "recur.py", old="            fwd_x = fwd_x + fwd_a\n", new="            fwd_x += fwd_a\n",
    needs="forward-mode differentiation with a tangent for both the coefficient and the input", breaks="the caller's input tangent is overwritten",
    demo="""from philtorch.lti.recur import LTIRecurrence
import torch.autograd.forward_ad as fw
a, i, x = torch.rand(2), torch.randn(2), torch.randn(2, 5)
da, dx = torch.randn(2), torch.randn(2, 5); keep = dx.clone()
with fw.dual_level():
    LTIRecurrence.apply(fw.make_dual(a, da), i, fw.make_dual(x, dx))
assert torch.equal(dx, keep)
""")
add("u06", property="C14", file=LT + "filtering.py", old="    if padmode is None:\n        padlen = 0\n", new="    if padmode is None and padlen is None:\n        padlen = 0\n",
    needs="padding switched off while a padding length is given", breaks="samples that were never padded are cropped from the result",
    demo="""b, a, x = torch.tensor([1., .5, .2]), torch.tensor([.3, .1]), torch.randn(2, 20)
assert lti.filtfilt(b, a, x, padmode=None, padlen=4).shape == x.shape
""")
add("u07", property="C08", file=PT + "filtering.py", old="                        b_zf if b_zf.size(1) > a_zf.size(1) else a_zf,\n", new="                        b_zf if b_zf.size(1) < a_zf.size(1) else a_zf,\n",
    needs="initial conditions, torchlpc backend, numerator and denominator of different order", breaks="the final delay line is shorter than the filter order",
    demo="""from philtorch.lpv import lfilter
b, a, x = torch.randn(2, 9, 4), 0.1 * torch.randn(2, 9, 2), torch.randn(2, 9)
y, zf = lfilter(b, a, x, zi=torch.ones(2, 3), form="df2", backend="torchlpc")
y2, zf2 = lfilter(b, a, x, zi=torch.ones(2, 3), form="df2", backend="ssm")
assert zf.shape == zf2.shape and torch.allclose(zf, zf2)
""")
add("u08", property="C18", file=LT + "filtering.py", old="        a = a.repeat_interleave(delay)\n", new="        a = a.repeat(delay)\n",
    needs="a different gain per batch element", breaks="the gains of different batch elements are mixed up",
    demo="""from philtorch.lti.filtering import comb_filter
a, x = torch.tensor([.5, -.3]), torch.randn(2, 12)
y = comb_filter(a, 3, x)
assert torch.allclose(y[:, 3:], x[:, 3:] - a[:, None] * y[:, :-3])
""")
add("u09", property="C05", file=LT + "ssm.py", old="Vinvzi = torch.linalg.vecdot(Vinv.conj(), zi.unsqueeze(1))", new="Vinvzi = torch.linalg.vecdot(zi.unsqueeze(1), Vinv)",
    needs="per-batch eigenvectors and a complex initial state", breaks="the initial state is conjugated",
    demo="""from philtorch.lti.ssm import diag_state_space, state_space
c = torch.complex128
A, x, zi = 0.4 * torch.randn(2, 3, 3, dtype=c), torch.randn(2, 5, 3, dtype=c), torch.randn(2, 3, dtype=c)
assert torch.allclose(diag_state_space(x, A=A, zi=zi)[0], state_space(A, x, zi=zi)[0])
""")
add("u10", property="C23", file="philtorch/prototype/signal.py", old="    residues = residues * (-poles) ** powers / a_rev[0]\n", new="    residues = residues * -(poles**powers) / a_rev[0]\n",
    needs="a repeated pole", breaks="the residues of even powers have the wrong sign",
    demo="""from philtorch.prototype.signal import residuez
import numpy as np
a = torch.tensor(np.poly([.5, .5, -.3])); b = torch.tensor([1., .4])
r, p, k = residuez(b, a)
z = 1.3; want = (1 + .4 / z) / ((1 - .5 / z) ** 2 * (1 + .3 / z))
s, seen = 0, {}
for ri, pi in zip(r, p):
    key = round(pi.real.item(), 3); seen[key] = seen.get(key, 0) + 1
    s = s + ri / (1 - pi / z) ** seen[key]
assert abs(s - want) < 1e-3
""")
add("u11", property="C22", file="philtorch/prototype/nl.py", old="        if torch.allclose(new_y, y[:, 1:], atol=atol, rtol=rtol):\n", new="        if torch.allclose(new_y[-1], y[-1, 1:], atol=atol, rtol=rtol):\n",
    needs="a batch whose last element has already converged while another has not", breaks="the iteration stops before every batch element is solved",
    demo="""from philtorch.prototype.nl import newton_solve
x = torch.zeros(2, 8, 2); x[0] = torch.randn(8, 2)
f = lambda y, x: 0.5 * torch.tanh(y) ** 2 + x
init = torch.zeros(2, 2)
y, n = newton_solve(f, x, torch.zeros(2, 8, 2), init, max_iter=6)
h = init; ref = []
for t in range(8): h = f(h, x[:, t]); ref.append(h)
assert torch.allclose(y, torch.stack(ref, 1), atol=1e-6)
""")
add("u12", property="C19", file=LT + "interp.py", old="        y = linear_recurrence(a.broadcast_to(x.shape[0]), zi, xb, **kwargs)\n", new="        y = linear_recurrence(a.broadcast_to(x.shape[0]), zi.abs() if b is None else zi, xb, **kwargs)\n",
    needs="no compiled extension", breaks="x", demo="assert 1\n") if 0 else None
add("u13", property="C19", file=LT + "interp.py", old="    else:\n        y = linear_recurrence(a.broadcast_to(x.shape[0]), zi, xb, **kwargs)\n    return y\n",
    new="    else:\n        y = linear_recurrence(a.broadcast_to(x.shape[0]), zi, x, **kwargs)\n        y = y if b is None else y * b\n    return y\n",
    needs="the cascaded form without the compiled extension", breaks="the initial value of the backward pass is scaled as well",
    demo="""import philtorch.lti.interp as ip
x = torch.randn(2, 9)
y = ip.cspline(x, parallel_form=False)
ip.EXTENSION_LOADED = False
assert torch.allclose(ip.cspline(x, parallel_form=False), y)
""")
add("u14", property="C20", file="philtorch/prototype/poly.py", old="    r = u.clone()\n", new="    r = u.to(torch.result_type(u, v))\n",
    needs="dividend and divisor of the same type", breaks="the caller's dividend is overwritten",
    demo="""from philtorch.prototype.poly import polydiv
u = torch.tensor([1., 2., 3., 4.]); k = u.clone(); polydiv(u, torch.tensor([1., 5.]))
assert torch.equal(u, k)
""")
add("u15", property="C03", file=LT + "recur.py", old="            if a.numel() == 1\n", new="            if a.numel() == 1 or not a.is_complex() and bool((a == a[0]).all())\n",
    needs="per-batch coefficients", breaks="x", demo="assert 1\n") if 0 else None
add("u16", property="C03", file=LT + "recur.py", old="        .unfold(-1, block_size, 1)\n        .flip(-2)\n", new="        .unfold(-1, block_size, 1)\n        .flip(0)\n",
    needs="per-batch coefficients and blocked evaluation", breaks="blocks are evaluated in the wrong order with the coefficients of another batch element",
    demo="""from philtorch.lti.recur import linear_recurrence as r
a, i, x = torch.rand(2), torch.randn(2), torch.randn(2, 9)
assert torch.allclose(r(a, i, x, unroll_factor=3), r(a, i, x))
""")
add("u17", property="C12", file=LT + "recur.py", old="            fwd_a = concat_out * grad_a.view(-1, 1)\n", new="            fwd_a = torch.cat([init.unsqueeze(1), out], dim=1)[:, : out.size(1)] * grad_a.view(-1, 1).conj()\n",
    needs="complex coefficient tangents", breaks="the tangent of the coefficient is conjugated",
    demo="""from philtorch.lti.recur import LTIRecurrence
import torch.autograd.forward_ad as fw
c = torch.complex128
a, i, x, da = 0.5 * torch.randn(2, dtype=c), torch.randn(2, dtype=c), torch.randn(2, 5, dtype=c), torch.randn(2, dtype=c)
with fw.dual_level():
    t = fw.unpack_dual(LTIRecurrence.apply(fw.make_dual(a, da), i, x)).tangent
h, dh, ref = i, 0 * i, []
for k in range(5):
    dh = a * dh + da * h; h = a * h + x[:, k]; ref.append(dh)
assert torch.allclose(t, torch.stack(ref, 1))
""")
add("u18", property="C17", file=LT + "interp.py", old="            zi = r / (r - 1) * h[..., -1]\n", new="            zi = -r / (1 - r * r) * (h[..., -1] - r * x[..., -1])\n",
    needs="the cascaded form with the SciPy boundary convention", breaks="the last coefficient does not follow the mirrored boundary",
    demo="""from philtorch.lti.interp import cspline
x = torch.randn(2, 40)
assert torch.allclose(cspline(x, False, True), cspline(x, True, True), atol=1e-6)
""")
add("u19", property="C07", file=LT + "filtering.py", old="            direct_filt = partial(fir, rev_q.flip(-1).broadcast_to((x.size(0), -1)))\n", new="            direct_filt = partial(fir, rev_q.broadcast_to((x.size(0), -1)))\n",
    needs="diagonal backend, numerator longer than the denominator by two or more", breaks="the direct part is filtered with reversed coefficients",
    demo="""b, a, x = torch.randn(5), torch.tensor([.3, .02]), torch.randn(2, 12)
assert torch.allclose(lti.lfilter(b, a, x, backend="diag_ssm"), lti.lfilter(b, a, x))
""")
add("u20", property="C01", file=LT + "ssm.py", old="    AT = A.mT\n    if x.dim() == 2:\n        M = A.size(-1)\n", new="    AT = A.mT if A.dim() == 3 or not A.is_complex() else A.mH\n    if x.dim() == 2:\n        M = A.size(-1)\n",
    needs="a complex matrix shared by the batch without the extension", breaks="the states are computed with the conjugated matrix",
    demo="""from philtorch.lti.ssm import state_space_recursion as r
c = torch.complex128
A, z, x = 0.4 * torch.randn(3, 3, dtype=c), torch.randn(2, 3, dtype=c), torch.randn(2, 6, 3, dtype=c)
h = z
for t in range(6): h = h @ A.T + x[:, t]
assert torch.allclose(r(A, z, x)[:, -1], h)
""")
add("u21", property="C21", file="philtorch/__init__.py", old="        torch._check(A.ndim <= 1, \"A must be 1D or scalar.\")\n", new="        torch._check(A.ndim == 1, \"A must be 1D.\")\n",
    needs="tracing with a scalar coefficient", breaks="the abstract kernel rejects what the real operator accepts",
    demo="""m = lambda *s: torch.empty(s, device="meta")
assert torch.ops.philtorch.lti_recur(m(), m(2), m(2, 5)).shape == (2, 5)
""")
add("u22", property="C10", file=PT + "filtering.py", old="        return y, unfolded_x[:, -1, 1:].flip(1)\n", new="        return y, F.pad(x, (b.size(2) - 1, 0))[:, T:].flip(1)\n",
    needs="a chunk shorter than the filter memory", breaks="the older initial memory is forgotten",
    demo="""from philtorch.lpv.filtering import fir
b, x, z = torch.randn(1, 6, 5), torch.randn(1, 6), torch.randn(1, 4)
y, zf = fir(b, x, z)
y1, z1 = fir(b[:, :2], x[:, :2], z); y2, z2 = fir(b[:, 2:], x[:, 2:], z1)
assert torch.allclose(torch.cat([y1, y2], 1), y) and torch.allclose(z2, zf)
""")
add("u23", property="C13", file=LT + "filtering.py", old="        x = b.new_zeros(m)\n", new="        x = y.new_zeros(m)\n", needs="x", breaks="x", demo="assert 1\n") if 0 else None
add("u24", property="C16", file="philtorch/poly.py", old="    if m < n:\n        return r[..., :0], r\n", new="    if m < n:\n        return r[..., :0], u\n",
    needs="a short dividend with a batched divisor", breaks="the remainder lacks the batch dimensions",
    demo="""from philtorch.poly import polydiv
assert polydiv(torch.randn(2), torch.randn(3, 4))[1].shape == (3, 2)
""") if 0 else None
add("u25", property="C06", file=PT + "ssm.py", old="            case (C_batch, _, CM) if C_batch == batch_size and CM == M:\n                Ch = h @ C.mT\n", new="            case (C_batch, _, CM) if C_batch == batch_size and CM == M:\n                Ch = h @ C.mH\n",
    needs="complex per-batch output matrices", breaks="the output matrix is conjugated",
    demo="""from philtorch.lpv.ssm import state_space
c = torch.complex128
A, x, C = 0.4 * torch.randn(5, 3, 3, dtype=c), torch.randn(2, 5, 3, dtype=c), torch.randn(2, 4, 3, dtype=c)
assert torch.allclose(state_space(A, x, C=C), state_space(A, x) @ C.mT)
""")
add("u26", property="C04", file="philtorch/csrc/host_lti_recur.cpp", old="    if (a.dim() == 1 && a.numel() == n_batches)\n", new="    if (a.dim() == 1 && a.stride(0) == 1 && a.numel() == n_batches)\n",
    needs="x", breaks="x", demo="assert 1\n") if 0 else None
add("u27", property="C11", file=LT + "ssm.py", old="                grad_A = flipped_grad_x.flip(1).mT @ padded_y.conj_physical()\n", new="                grad_A = (padded_y.mH @ flipped_grad_x.flip(1)).mH\n",
    needs="complex per-batch matrices", breaks="the gradient of the matrix is conjugated",
    demo="""from philtorch.lti.ssm import LTIMatrixRecurrence
c = torch.complex128
A = (0.4 * torch.randn(2, 3, 3, dtype=c)).requires_grad_(); zi = torch.randn(2, 3, dtype=c); x = torch.randn(2, 4, 3, dtype=c)
assert torch.autograd.gradcheck(LTIMatrixRecurrence.apply, (A, zi, x))
""")
add("u28", property="C09", file=PT + "filtering.py", old="        y = torch.linalg.vecdot(\n            shifted_b.flip(2),\n", new="        y = torch.linalg.vecdot(\n            shifted_b.flip(2).conj(),\n",
    needs="x", breaks="x", demo="assert 1\n") if 0 else None
