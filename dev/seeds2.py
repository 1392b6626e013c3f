H = "import torch\nimport philtorch\nfrom philtorch import lti, lpv\ntorch.manual_seed(0)\ntorch.set_default_dtype(torch.float64)\n"
SEEDS = {}
def add(i, **k): k["demo"] = H + k["demo"]; SEEDS[i] = k
LT, PT = "philtorch/lti/", "philtorch/lpv/"
add("p01", property="C05", file=LT + "ssm.py", old="                Dx = torch.linalg.vecdot(D.unsqueeze(1).conj(), x)\n", new="                Dx = torch.linalg.vecdot(D.unsqueeze(1), x)\n",
    needs="complex signals with several features and one feedthrough row per batch element", breaks="the feedthrough is applied conjugated",
    demo="""from philtorch.lti.ssm import state_space
c = torch.complex128
A, x, C, D, B = 0.3 * torch.randn(3, 3, dtype=c), torch.randn(2, 5, 4, dtype=c), torch.randn(3, dtype=c), torch.randn(2, 4, dtype=c), torch.randn(3, 4, dtype=c)
y = state_space(A, x, B=B, C=C, D=D); y0 = state_space(A, x, B=B, C=C)
assert torch.allclose(y - y0, (D[:, None] * x).sum(-1))
""")
add("p02", property="C19", file=PT + "ssm.py", old="unroll_factor = round(N**0.5)", new="unroll_factor = int(N**0.5 - 0.5) if N < 4 else round(N**0.5)",
    needs="the default block size with a signal of one or two samples", breaks="the default block size is zero and the evaluation is refused",
    demo="""from philtorch.lpv.ssm import state_space
A, x = torch.randn(2, 3, 3), torch.randn(2, 2, 3)
assert torch.allclose(state_space(A, x, zi=torch.ones(2, 3))[0], state_space(A, x, zi=torch.ones(2, 3), unroll_factor=1)[0])
""")
add("p03", property="C03", file=LT + "recur.py", old="torch.linalg.vecdot(unrolled_x.conj(), a_powers_plus_I.unsqueeze(1))", new="torch.linalg.vecdot(a_powers_plus_I.unsqueeze(1), unrolled_x)",
    needs="complex per-batch coefficients and blocked evaluation", breaks="the block sums use conjugated powers of the coefficient",
    demo="""from philtorch.lti.recur import linear_recurrence as r
c = torch.complex128
a, i, x = 0.8 * torch.randn(2, dtype=c), torch.randn(2, dtype=c), torch.randn(2, 9, dtype=c)
assert torch.allclose(r(a, i, x, unroll_factor=3), r(a, i, x))
""")
add("p04", property="C20", file="philtorch/poly.py", old="r = u.expand(batch_shape + u.shape[-1:]).clone()", new="r = u.expand(batch_shape + u.shape[-1:]).contiguous()",
    needs="a dividend that is contiguous and already has the full batch shape", breaks="the caller's dividend is overwritten by the remainder",
    demo="""from philtorch.poly import polydiv
u = torch.randn(2, 5); u0 = u.clone(); polydiv(u, torch.randn(3))
assert torch.equal(u, u0)
""")
add("p05", property="C11", file="philtorch/__init__.py", old="                ).T @ padded_y.conj_physical().flatten(0, 1)", new="                ).T @ padded_y.flatten(0, 1)",
    needs="complex signals through the registered operator with one matrix shared by the batch", breaks="the gradient of the shared matrix misses a conjugate",
    demo="""c = torch.complex128
A = torch.randn(3, 3, dtype=c, requires_grad=True); zi = torch.randn(2, 3, dtype=c); x = torch.randn(2, 4, 3, dtype=c)
assert torch.autograd.gradcheck(torch.ops.philtorch.lti_recurN, (A, zi, x))
""")
add("p06", property="C11", file=PT + "ssm.py", old="                grad_A = padded_y.conj_physical().unsqueeze(-2) * flipped_grad_x.flip(", new="                grad_A = padded_y.conj_physical().unsqueeze(-2) * flipped_grad_x.resolve_conj().flip(" ,
    needs="x", breaks="x", demo="assert True\n") if 0 else None
add("p07", property="C15", file="philtorch/mat.py", old="        return matrix_power_accumulate(Ainv, -n)", new="        return matrix_power_accumulate(Ainv, -n) if n > -4 else matrix_power_accumulate(Ainv.mT, -n).mT if A.dim() == 2 else matrix_power_accumulate(Ainv, 1 - n)[..., :-1, :, :].flip(-3).flip(-3) @ Ainv.unsqueeze(-3) @ A.mT.unsqueeze(-3).mT if A.dim() == 3 else matrix_power_accumulate(Ainv, -n).flip(-3)",
    needs="powers below -3 of matrices with two or more batch dimensions", breaks="the inverse powers come in reverse order",
    demo="""from philtorch.mat import matrix_power_accumulate as f
A = torch.randn(2, 2, 3, 3); I = torch.linalg.inv(A); y = f(A, -5)
assert torch.allclose(y[..., 0, :, :], I)
""") if 0 else None
add("p08", property="C02", file=PT + "ssm.py", old="            else unrolled_A[:, :-1].repeat(batch_size, 1, 1, 1)", new="            else unrolled_A[:, :-1].repeat_interleave(batch_size, 0)",
    needs="one matrix sequence shared by a batch larger than one, evaluated in at least two blocks", breaks="blocks run with the matrices of another block",
    demo="""from philtorch.lpv.ssm import state_space_recursion as r
A, zi, x = 0.5 * torch.randn(12, 3, 3), torch.randn(2, 3), torch.randn(2, 12, 3)
assert torch.allclose(r(A, zi, x, unroll_factor=4), r(A, zi, x))
""")
add("p09", property="C17", file=LT + "interp.py", old="c_flip = _first_order_filt(h[..., :-1].flip(-1), r, zi, -r, **kwargs).flip(-1)", new="c_flip = _first_order_filt(h[..., :-1].flip(-1), r, zi, -r, unroll_factor=1).flip(-1) if x.shape[-1] > 2 else _first_order_filt(h[..., :-1].flip(-1), r, zi, r, unroll_factor=1).flip(-1)",
    needs="the cascaded form on two samples", breaks="the backward pass has the wrong sign",
    demo="""from philtorch.lti.interp import cspline
x = torch.randn(2, 2)
c = cspline(x, parallel_form=False)
# reflect: c[-1] = c[1]
assert torch.allclose(4 * c[:, 0] + 2 * c[:, 1], 6 * x[:, 0], atol=0.5) or torch.allclose(cspline(x, parallel_form=True)[:, 0], c[:, 0], atol=.5)
""") if 0 else None
add("p10", property="C23", file="philtorch/prototype/poly.py", old="    if a1.shape[0] > a2.shape[0]:\n        a1, a2 = a2, a1\n    weight = a1.flip(0)", new="    if a1.shape[0] >= a2.shape[0]:\n        a1, a2 = a2, a1\n    weight = a1.flip(0).conj().resolve_conj()",
    needs="complex coefficients with a non-real shorter factor", breaks="the product uses conjugated coefficients of one factor",
    demo="""from philtorch.prototype.poly import polymul, polyval
c = torch.complex128
a, b, z = torch.randn(3, dtype=c), torch.randn(5, dtype=c), torch.randn((), dtype=c)
assert torch.allclose(polyval(polymul(a, b), z), polyval(a, z) * polyval(b, z))
""")
add("p11", property="C23", file="philtorch/prototype/poly.py", old="    p = trim_zeros(p)\n    if p.numel() == 1:\n        return torch.zeros_like(x) + p[0]", new="    p = trim_zeros(p)\n    if p.numel() == 1:\n        return p[0]",
    needs="evaluating a constant polynomial at several points", breaks="one value is returned instead of one per point",
    demo="""from philtorch.prototype.poly import polyval
assert polyval(torch.tensor([0., 2.]), torch.randn(4)).shape == (4,)
""")
add("p12", property="C22", file="philtorch/prototype/nl.py", old="                lambda y: func(y, x[:, i + 1 :]).sum((0, 1)),", new="                lambda y: func(y, x[:, i + 1 :]).sum(0).sum(0),",
    needs="x", breaks="x", demo="assert True\n") if 0 else None
add("p13", property="C22", file="philtorch/prototype/nl.py", old="            ).permute(1, 2, 0, 3)", new="            ).permute(1, 2, 3, 0)",
    needs="an automatic Jacobian that is not symmetric", breaks="the update solves with the transposed Jacobian",
    demo="""from philtorch.prototype.nl import newton_solve
M = 0.5 * torch.randn(3, 3); f = lambda y, x: y @ M.T + x
x, y0, init = torch.randn(2, 6, 3), torch.randn(2, 6, 3), torch.randn(2, 3)
r, k = newton_solve(f, x, y0, init, max_iter=1)
h = init
for t in range(6):
    h = f(h, x[:, t]); assert torch.allclose(r[:, t], h)
""")
add("p14", property="C18", file=LT + "filtering.py", old="        a = a.repeat_interleave(delay)", new="        a = a.repeat(delay)",
    needs="different gains per batch element", breaks="the delay lines of one batch element run with another's gain",
    demo="""from philtorch.lti.filtering import comb_filter
a, x = torch.tensor([.5, -.3]), torch.randn(2, 9)
y = comb_filter(a, 3, x)
e = torch.zeros(2, 12)
for n in range(9): e[:, n + 3] = x[:, n] - a * e[:, n]
assert torch.allclose(y, e[:, 3:])
""")
add("p15", property="C18", file=LT + "filtering.py", old="        return y if zi is None else (y, y[:, -1:])", new="        return y if zi is None else (y, y[:, :1] if y.size(1) < 2 else y[:, -2:-1] * -a[..., None] + x[:, -1:]) if a.dim() else (y, y[:, -1:].abs() * y[:, -1:].sign())",
    needs="x", breaks="x", demo="assert True\n") if 0 else None
add("p16", property="C21", file="philtorch/__init__.py", old="""        torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
        torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
        torch._check(x.ndim == 3 and zi.ndim == 2, "x must be 3D and zi 2D.")
        torch._check(
            zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
        )
        torch._check(
            x.shape[0] == zi.shape[0], "x and zi must have the same batch size."
        )
        if A.ndim == 3:""", new="""        torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
        torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
        torch._check(x.ndim == 3 and zi.ndim == 2, "x must be 3D and zi 2D.")
        torch._check(
            zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
        )
        torch._check(
            x.shape[0] == zi.shape[0], "x and zi must have the same batch size."
        )
        if A.ndim == 3 and A.shape[0] > 1:""",
    needs="tracing with a single matrix in batch form and several signals", breaks="tracing accepts what the operator rejects",
    demo="""from torch._subclasses.fake_tensor import FakeTensorMode
def ok(f):
    try: f(); return True
    except Exception: return False
sh = (1, 3, 3), (2, 3), (2, 5, 3)
real = ok(lambda: torch.ops.philtorch.lti_recurN(*[torch.zeros(s) for s in sh]))
with FakeTensorMode() as m:
    fake = ok(lambda: torch.ops.philtorch.lti_recurN(*[torch.empty(s) for s in sh]))
assert real == fake, (real, fake)
""")
add("p17", property="C13", file=LT + "filtering.py", old="    if zi_a.size(-1) < k:\n        zi_a = F.pad(zi_a, (0, k - zi_a.size(-1)), value=0.0)", new="    if zi_a.size(-1) + 1 < k:\n        zi_a = F.pad(zi_a, (0, k - zi_a.size(-1)), value=0.0)",
    needs="a numerator exactly one order longer than the denominator, denominator of order one", breaks="the output history is spread over two delay elements by broadcasting",
    demo="""from philtorch.lti.filtering import lfiltic
b, a = torch.tensor([1., .5, .25]), torch.tensor([.4])
zi = lfiltic(b, a, torch.tensor([2.]), torch.tensor([1., 3.]))
assert torch.allclose(zi, torch.tensor([.5 + .75 - .8, .25]))
""")
add("p18", property="C08", file=PT + "filtering.py", old="        a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)", new="        a = diag_shift(a.conj(), offset=1, discard_end=not return_zf) if a.size(1) >= a.size(2) else diag_shift(a.conj(), offset=0, discard_end=not return_zf)[:, -a.size(1) - (0 if not return_zf else a.size(2)):]",
    needs="x", breaks="x", demo="assert True\n") if 0 else None
add("p19", property="C14", file=LT + "filtering.py", old="        if x.dim() == 1:\n            ext = ext.squeeze(0)", new="        if x.size(0) == 1 or x.dim() == 1:\n            ext = ext.squeeze(0)",
    needs="a batch holding exactly one signal", breaks="the batch axis is lost",
    demo="""from philtorch.lti.filtering import filtfilt
x = torch.randn(1, 40)
assert filtfilt(torch.tensor([1., .5]), torch.tensor([.3]), x).shape == x.shape
""")
add("p20", property="C07", file=LT + "filtering.py", old="direct_filt = partial(fir, rev_q.flip(-1).broadcast_to((x.size(0), -1)))", new="direct_filt = partial(fir, rev_q.flip(-1).expand(x.size(0), -1)[:, : x.size(1)])",
    needs="x", breaks="x", demo="assert True\n") if 0 else None
add("p21", property="C10", file=PT + "ssm.py", old="        zf = h[:, -1, :] if return_zf else None", new="        zf = h[:, -1, :] if return_zf and N > 1 else zi if return_zf else None",
    needs="a chunk of exactly one sample", breaks="the state is not advanced by a one-sample chunk",
    demo="""from philtorch.lpv.ssm import state_space
A, x, zi = torch.randn(1, 3, 3), torch.randn(2, 1, 3), torch.randn(2, 3)
y, zf = state_space(A, x, zi=zi)
assert torch.allclose(zf, zi @ A[0].T + x[:, 0])
""")
add("p22", property="C12", file=LT + "ssm.py", old="                (grad_A if grad_A.dim() == 2 else grad_A.unsqueeze(-3))\n", new="                (grad_A if grad_A.dim() == 2 or grad_A.size(0) == y.size(1) else grad_A.unsqueeze(-3))\n",
    needs="per-batch matrices with as many batch elements as time steps", breaks="the tangent pairs matrices with time steps instead of batch elements",
    demo="""import torch.autograd.forward_ad as fwAD
from philtorch.lti.ssm import LTIMatrixRecurrence as R
A, zi, x, dA = torch.randn(4, 3, 3), torch.randn(4, 3), torch.randn(4, 4, 3), torch.randn(4, 3, 3)
with fwAD.dual_level():
    t = fwAD.unpack_dual(R.apply(fwAD.make_dual(A, dA), zi, x)).tangent
e = 1e-6
num = (R.apply(A + e * dA, zi, x) - R.apply(A - e * dA, zi, x)) / (2 * e)
assert torch.allclose(t, num, atol=1e-6)
""")
add("p23", property="C04", file="philtorch/csrc/host_lti_recurN.cpp", old="A.contiguous()", new="A", needs="a transposed state matrix", breaks="the kernel reads the matrix in the wrong order",
    demo="""A = torch.randn(3, 3).T; zi = torch.randn(2, 3); x = torch.randn(2, 5, 3)
y = torch.ops.philtorch.lti_recurN(A, zi, x); h = zi
for t in range(5):
    h = h @ A.T + x[:, t]; assert torch.allclose(y[:, t], h)
""")
add("p24", property="C09", file=LT + "filtering.py", old="            return y[:, :N], y[:, N:]", new="            return y[:, :N], y[:, -M:]",
    needs="a filter of order zero with (empty) initial conditions", breaks="the whole signal is returned as the final state",
    demo="""from philtorch.lti.filtering import fir
y, zf = fir(torch.randn(2, 1), torch.randn(2, 6), zi=torch.zeros(2, 0))
assert zf.shape == (2, 0)
""")
SEEDS = {k: v for k, v in SEEDS.items() if v["demo"] != H + "assert True\n"}
