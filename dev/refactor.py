"""development tool: behaviour-preserving edits of the source; every check must stay quiet on them.
usage: refactor.py [name ...]   (reports checks that alarm or leave obligations undecided)"""
import sys, os, subprocess, shutil, json
R = {}


def ref(name, file, checks, *subs):
    R[name] = (file, checks.split(), subs)


LS, LR, LF, PS, PR, PF = "philtorch/lti/ssm.py", "philtorch/lti/recur.py", "philtorch/lti/filtering.py", "philtorch/lpv/ssm.py", "philtorch/lpv/recur.py", "philtorch/lpv/filtering.py"

ref("lti_loop_matmul", LS, "C01 C02 C05 C19 C20", ("            h = torch.addmm(xn, h, AT)\n", "            h = h @ AT + xn\n"),
    ("            h = torch.baddbmm(xn.unsqueeze(1), h, AT)\n", "            h = xn.unsqueeze(1) + torch.bmm(h, AT)\n"))
ref("lti_loop_index", LS, "C02 C05 C19 C20", ("        for xn in x.unbind(1):\n            h = torch.addmm(xn, h, AT)\n", "        for n in range(x.size(1)):\n            h = torch.addmm(x[:, n], h, AT)\n"))
ref("lti_loop_helper", LS, "C02 C05 C19 C20 C10", ("def _recursion_loop(\n", '''def _pad_first(x: Tensor, M: int) -> Tensor:
    return torch.cat([x[..., None], x.new_zeros(x.shape + (M - 1,))], dim=-1)


def _recursion_loop(
'''), ('''        x = torch.cat(
            [x.unsqueeze(-1), x.new_zeros(*x.shape, M - 1)], dim=-1
        )  # (batch, time, M)
''', "        x = _pad_first(x, M)\n"))
ref("scalar_loop_index", LR, "C03 C17 C18 C19 C20", ("    for xn in x.unbind(dim=1):\n        h = a * h + xn\n", "    for n in range(x.size(1)):\n        h = x[:, n] + a * h\n"))
ref("scalar_loop_addcmul", LR, "C03 C17 C18 C19 C20", ("        h = a * h + xn\n", "        h = torch.addcmul(xn, a, h)\n"))
ref("lr_helper", LR, "C03 C19 C20", ("def linear_recurrence(\n", '''def _powers(a: Tensor, count: int) -> Tensor:
    if a.numel() == 1:
        base = a.expand(count)
    else:
        base = a.unsqueeze(1).expand(-1, count)
    return torch.cumprod(base, dim=-1)


def linear_recurrence(
'''), ('''    a_powers = torch.cumprod(
        (
            a.expand(block_size)
            if a.numel() == 1
            else a.unsqueeze(1).expand(-1, block_size)
        ),
        dim=-1,
    )
''', "    a_powers = _powers(a, block_size)\n"))
ref("lr_blocksize", LR, "C03 C19 C20", ('''    if unroll_factor < 1:
        raise ValueError("Unroll factor must be >= 1")
    else:
        block_size = unroll_factor
''', '''    block_size = unroll_factor
    if block_size <= 0:
        raise ValueError("Unroll factor must be >= 1")
'''), ('''    remainder = N % block_size
    if remainder != 0:
        x = F.pad(x, (0, block_size - remainder))
        N = x.size(1)  # Update T after padding
''', '''    length = N
    remainder = N % block_size
    if remainder:
        x = F.pad(x, (0, block_size - remainder))
'''), ('''    if remainder != 0:
        # if we padded the input, we need to remove the padding from the output
        output = output[:, : -(block_size - remainder)]
    return output
''', '''    return output[:, :length]
'''))
ref("lr_iterative", LR, "C03 C19 C20", ('''    initials = torch.cat(
        [
            init.unsqueeze(1).broadcast_to(batch_size, 1),
            linear_recurrence(a_powered, init, z, unroll_factor=unroll_factor),
        ],
        dim=1,
    )
''', '''    states = linear_recurrence(a_powered, init, z, unroll_factor=unroll_factor)
    first = init.unsqueeze(1).expand(batch_size, 1)
    initials = torch.cat((first, states), dim=1)
'''))
ref("comb_pad", LF, "C18 C10 C19 C20", ("        x = F.pad(x, (0, delay - remainder))\n\n    folded_x", "        x = torch.cat([x, x.new_zeros(x.size(0), delay - remainder)], dim=1)\n\n    folded_x"),
    ("    if remainder != 0:\n        y = y[:, : -(delay - remainder)]\n    if return_zf:", "    if remainder != 0:\n        y = y[:, : y.size(1) - delay + remainder]\n    if return_zf:"))
ref("comb_guard", LF, "C18 C10 C19 C20", ('''    if zi is not None:
        return_zf = True
        if zi.dim() == 1:
            zi = zi.expand(x.size(0), -1)
        past_y = zi.flip(1)
        zi = past_y.flatten()
    else:
        return_zf = False
        zi = torch.zeros_like(a)
''', '''    return_zf = zi is not None
    if not return_zf:
        zi = torch.zeros_like(a)
    else:
        past_y = (zi if zi.dim() == 2 else zi.unsqueeze(0).expand(x.size(0), -1)).flip(1)
        zi = past_y.reshape(-1)
'''))
ref("lfiltic_helper", LF, "C13 C20", ("def lfiltic(", '''def _right_pad(v: Tensor, size: int) -> Tensor:
    missing = size - v.size(-1)
    return F.pad(v, (0, missing)) if missing > 0 else v


def lfiltic('''), ('''    if zi_b.size(-1) < k:
        zi_b = F.pad(zi_b, (0, k - zi_b.size(-1)), value=0.0)
    if zi_a.size(-1) < k:
        zi_a = F.pad(zi_a, (0, k - zi_a.size(-1)), value=0.0)
    zi = zi_b - zi_a
    return zi
''', "    return _right_pad(zi_b, k) - _right_pad(zi_a, k)\n"))
ref("lfilter_zi_order", LF, "C13 C14 C20", ('''        if b.size(-1) < n:
            b = F.pad(b, (0, n - b.size(-1)), value=0.0)
        if a.size(-1) < n - 1:
            a = F.pad(a, (0, n - 1 - a.size(-1)), value=0.0)
        A = companion(a).mT.conj()
        B = b[..., 1:] - b[..., :1] * a
''', '''        a = F.pad(a, (0, n - 1 - a.size(-1)))
        b = F.pad(b, (0, n - b.size(-1)))
        b0, b_rest = b[..., :1], b[..., 1:]
        B = b_rest - b0 * a
        A = companion(a).transpose(-1, -2).conj()
'''))
ref("fir_pad", LF, "C09 C07 C10 C20", ("        padded_x = F.pad(x, (M, 0))\n", "        padded_x = torch.cat([x.new_zeros(B, M), x], dim=1)\n"), ("            y = y + F.pad(zi, (0, N))\n            return y[:, :N], y[:, N:]\n        return y[:, :N]\n", "            y = F.pad(zi, (0, N)) + y\n            out, zf = y[:, :N], y[:, N:]\n            return out, zf\n        return y[:, :N]\n"))
ref("fir_split", LF, "C09 C07 C10 C20", ("        zf = padded_x[:, N:].flip(1)\n", "        zf = padded_x.flip(1)[:, :M]\n"))
ref("lfilter_if", LF, "C07 C14 C10 C19 C20", ('''    match backend:
        case "ssm":
            y = _ssm_lfilter(b, a, x, zi, form=form, **kwargs)
        case "diag_ssm":
            y = _diag_ssm_lfilter(b, a, x, zi, form=form, **kwargs)
        case _:
            raise ValueError(f"Unknown backend: {backend}")

    if isinstance(y, tuple):
        y, zf = y
        if squeeze_first:
            y = y.squeeze(0)
            zf = zf.squeeze(0)
        return y, zf
    return y.squeeze(0) if squeeze_first else y
''', '''    if backend == "ssm":
        run = _ssm_lfilter
    elif backend == "diag_ssm":
        run = _diag_ssm_lfilter
    else:
        raise ValueError(f"Unknown backend: {backend}")
    result = run(b, a, x, zi, form=form, **kwargs)

    if not squeeze_first:
        return result
    if isinstance(result, tuple):
        return tuple(r.squeeze(0) for r in result)
    return result.squeeze(0)
'''))
ref("ssm_lfilter_helper", LF, "C07 C14 C10 C19 C20", ("def _ssm_lfilter(\n", '''def _structure(b: Tensor, a: Tensor):
    b0 = b[..., :1]
    return b[..., 1:] - b0 * a, b0.squeeze(-1)


def _ssm_lfilter(
'''), ('''            b0 = b[..., :1]  # First coefficient of the FIR filter
            C = b[..., 1:] - b0 * a
            D = b[..., 0]
            filt = partial(
                state_space,
                A,
                B=None,
                C=C,
                D=D,
                zi=zi,
                out_idx=None,
                **kwargs,
            )
''', '''            C, D = _structure(b, a)

            def filt(x):
                return state_space(A, x, C=C, D=D, zi=zi, **kwargs)

'''))
ref("diag_lfilter_order", LF, "C07 C10 C19 C20", ('''    if delay > 0:
        y = F.pad(y, (delay, 0))[:, : y.size(1)]

    if direct_filt is not None:
        y = y + direct_filt(x)

    return y
''', '''    direct = None if direct_filt is None else direct_filt(x)
    if delay > 0:
        length = y.size(1)
        y = F.pad(y, (delay, 0))[:, :length]
    return y if direct is None else direct + y
'''))
ref("filtfilt_lambda", LF, "C14 C20 C19", ('''        def filt(x):
            return lfilter(b, a, x, zi=zi * x[..., :1], form=form, **kwargs)[0]
''', '''        def filt(v):
            start = v[..., :1] * zi
            out, _ = lfilter(b, a, v, zi=start, form=form, **kwargs)
            return out
'''), ("    y = filt(filt(ext).flip(-1))\n\n    if edge > 0:\n        y = y[..., edge:-edge]\n\n    return y.flip(-1)", "    forward = filt(ext)\n    y = torch.flip(filt(torch.flip(forward, (-1,))), (-1,))\n    if edge > 0:\n        y = y[..., edge : y.size(-1) - edge]\n    return y"))
ref("ss_state_helper", LS, "C05 C02 C10 C19 C20", ("def state_space(\n", '''def _delayed(zi: Tensor, h: Tensor, out_idx: Optional[int]) -> Tensor:
    if out_idx is None:
        return torch.cat([zi[:, None], h[:, :-1]], dim=1)
    return torch.cat([zi[:, None, out_idx], h[:, :-1, out_idx]], dim=1)


def state_space(
'''), ('''        h = (
            torch.cat([zi.unsqueeze(1), h[:, :-1]], dim=1)
            if out_idx is None
            else torch.cat([zi[:, None, out_idx], h[:, :-1, out_idx]], dim=1)
        )
    else:
        zf = None
''', '''        h = _delayed(zi, h, out_idx)
    else:
        zf = None
'''))
ref("ss_einsum", LS, "C05 C10 C19 C20", ('''                Bx = torch.linalg.vecdot(
                    B.unsqueeze(1).conj(), x.unsqueeze(-2)
                )  # (batch_size, N, M)
''', "                Bx = x @ B.mT\n"), ("                Bx = x.unsqueeze(-1) * B.unsqueeze(1)\n            case (B_batch, BM, F) if (", "                Bx = B[:, None, :] * x[..., None]\n            case (B_batch, BM, F) if ("))
ref("ss_cd", LS, "C05 C10 C19 C20", ('''    if Dx is not None:
        y = Ch + Dx
    else:
        y = Ch
    return y


def diag_state_space(''', '''    return Ch if Dx is None else Dx + Ch


def diag_state_space('''))
ref("ss_blocked", LS, "C01 C02 C05 C19 C20", ("    A_powers_plus_I = torch.cat(\n        [\n            A_powers[..., :-1, :, :].flip(-3),\n            torch.eye(M, device=A.device, dtype=A.dtype)\n            .broadcast_to(A.shape)\n            .unsqueeze(-3),\n        ],\n        dim=-3,\n    )\n",
    "    eye = torch.eye(M, device=A.device, dtype=A.dtype).expand(A.shape)\n    A_powers_plus_I = torch.cat(\n        [eye.unsqueeze(-3), A_powers[..., :-1, :, :]], dim=-3\n    ).flip(-3)\n"))
ref("ss_ext", LS, "C01 C02 C05 C19 C20", ('''    if x.dim() == 2 and A.size(-1) == 1:
        y = LTIRecurrence.apply(A[..., 0, 0], zi.squeeze(-1), x).unsqueeze(-1)
    elif A.size(-1) == 1:
        y = LTIRecurrence.apply(A[..., 0, 0], zi.squeeze(-1), x.squeeze(-1)).unsqueeze(
            -1
        )
    else:
''', '''    if A.size(-1) == 1:
        drive = x.squeeze(-1) if x.dim() == 3 else x
        y = LTIRecurrence.apply(A[..., 0, 0], zi[:, 0], drive)[..., None]
    else:
'''))
ref("lti_backward", LS, "C11 C12 C20", ('''        flipped_grad_x = LTIMatrixRecurrence.apply(
            AmT, torch.zeros_like(zi), grad_y.flip(1)
        )

        if ctx.needs_input_grad[1]:
            grad_zi = (AmT @ flipped_grad_x[:, -1, :, None]).squeeze(-1)

        if ctx.needs_input_grad[2]:
            grad_x = flipped_grad_x.flip(1)

        if ctx.needs_input_grad[0]:
            valid_y = y[:, :-1]
            padded_y = torch.cat([zi.unsqueeze(1), valid_y], dim=1)
            if A.dim() == 2:
                grad_A = flipped_grad_x.flip(1).flatten(
                    0, 1
                ).T @ padded_y.conj_physical().flatten(0, 1)
            else:
                grad_A = flipped_grad_x.flip(1).mT @ padded_y.conj_physical()
''', '''        adjoint = LTIMatrixRecurrence.apply(
            AmT, torch.zeros_like(zi), grad_y.flip(1)
        ).flip(1)
        need_A, need_zi, need_x = ctx.needs_input_grad

        if need_A:
            padded_y = torch.cat([zi[:, None], y[:, :-1]], dim=1).conj_physical()
            grad_A = adjoint.mT @ padded_y
            if A.dim() == 2:
                grad_A = grad_A.sum(0)
        if need_x:
            grad_x = adjoint
        if need_zi:
            grad_zi = (AmT @ adjoint[:, 0, :, None]).squeeze(-1)
'''))
ref("scalar_backward", LR, "C11 C12 C20 C03", ('''        bp_init = grad_out[:, -1]
        flipped_grad_x = torch.cat(
            [
                bp_init.unsqueeze(1),
                LTIRecurrence.apply(
                    a.conj_physical(),
                    bp_init,
                    grad_out[:, :-1].flip(1),
                ),
            ],
            dim=1,
        )
''', '''        flipped_grad_x = LTIRecurrence.apply(
            a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
        )
'''))
ref("init_backward", "philtorch/__init__.py", "C11 C20 C04 C21", ('''    if ctx.needs_input_grad[1]:
        grad_init = flipped_grad_x[:, -1] * a.conj_physical()

    if ctx.needs_input_grad[2]:
        grad_x = flipped_grad_x.flip(1)

    if ctx.needs_input_grad[0]:
        valid_out = out[:, :-1]
        padded_out = torch.cat([init.unsqueeze(1), valid_out], dim=1)
        if a.dim() == 1:
            grad_a = torch.linalg.vecdot(padded_out, flipped_grad_x.flip(1))
        else:
            grad_a = padded_out.flatten().conj() @ flipped_grad_x.flip(1).flatten()
''', '''    adjoint = flipped_grad_x.flip(1)
    if ctx.needs_input_grad[2]:
        grad_x = adjoint

    if ctx.needs_input_grad[1]:
        grad_init = a.conj_physical() * adjoint[:, 0]

    if ctx.needs_input_grad[0]:
        padded_out = torch.cat([init.unsqueeze(1), out[:, :-1]], dim=1)
        grad_a = (padded_out.conj() * adjoint).sum(1)
        if a.dim() == 0:
            grad_a = grad_a.sum()
'''))
ref("fake_helper", "philtorch/__init__.py", "C21 C20 C04", ("def _setup_context(", '''def _like(x):
    return torch.empty_like(x, memory_format=torch.contiguous_format)


def _setup_context('''), *[("        return torch.empty_like(x, memory_format=torch.contiguous_format)\n", "        return _like(x)\n")])
ref("companion_eye", "philtorch/mat.py", "C15 C07 C13 C20", ('''    c = torch.cat([-a, a.new_zeros(a.shape[:-1] + (M * (M - 1),))], dim=-1).unflatten(
        -1, (M, M)
    )
    # c = A + torch.diag(a.new_ones(M - 1), diagonal=-1)
    c[..., list(range(1, M)), list(range(M - 1))] = 1
    return c
''', '''    shifted = torch.eye(M, device=a.device, dtype=a.dtype)[: M - 1]
    shifted = shifted.expand(a.shape[:-1] + (M - 1, M))
    return torch.cat([-a.unsqueeze(-2), shifted], dim=-2)
'''))
ref("mpa_order", "philtorch/mat.py", "C15 C01 C02 C20", ('''    if n == 0:
        return (
            torch.eye(A.size(-1), device=A.device, dtype=A.dtype)
            .broadcast_to(A.shape)
            .unsqueeze(-3)
        )
    elif n < 0:
        Ainv = torch.linalg.inv(A)
        return matrix_power_accumulate(Ainv, -n)
    elif n == 1:
        return A.unsqueeze(-3)
''', '''    if n < 0:
        return matrix_power_accumulate(torch.linalg.inv(A), -n)
    if n == 1:
        return A.unsqueeze(-3)
    if n == 0:
        eye = torch.eye(A.size(-1), device=A.device, dtype=A.dtype)
        return eye.expand(A.shape).unsqueeze(-3)
'''))
ref("cumdot_loop", "philtorch/mat.py", "C15 C02 C20", ('''    accums = torch.stack(list(accumulate(blocks.unbind(-3), torch.matmul)), dim=-3)
    if len(factors) == 0:
        return accums.flatten(-4, -3)
''', '''    partial = [blocks[..., 0, :, :]]
    for k in range(1, fac):
        partial.append(partial[-1] @ blocks[..., k, :, :])
    accums = torch.stack(partial, dim=-3)
    if len(factors) == 0:
        return accums.flatten(-4, -3)
'''))
ref("lpv_loop", PS, "C02 C06 C19 C20", ("        for xn, AnT in zip(x.unbind(1), AT.unbind(0)):\n            h = torch.addmm(xn, h, AnT)\n", "        for n in range(x.size(1)):\n            h = x[:, n] + h @ AT[n]\n"))
ref("lpv_backward", PS, "C11 C12 C20", ('''        flipped_grad_x = MatrixRecurrence.apply(
            AmT_rolled.flip(-3),
            torch.zeros_like(zi),
            grad_y.flip(1),
        )

        if ctx.needs_input_grad[1]:
            grad_zi = (AmT[..., 0, :, :] @ flipped_grad_x[:, -1, :, None]).squeeze(-1)
''', '''        reversed_A = AmT_rolled.flip(-3)
        reversed_grad = grad_y.flip(1)
        flipped_grad_x = MatrixRecurrence.apply(
            reversed_A, torch.zeros_like(zi), reversed_grad
        )

        if ctx.needs_input_grad[1]:
            first = flipped_grad_x[:, -1]
            grad_zi = torch.einsum("...ij,...j->...i", AmT[..., 0, :, :], first)
'''))
ref("lpv_roll", PS, "C11 C12 C20", ('''        AmT_rolled = torch.roll(AmT, shifts=-1, dims=-3)
''', '''        AmT_rolled = torch.cat([AmT[..., 1:, :, :], AmT[..., :1, :, :]], dim=-3)
'''))
ref("lpv_lr", PR, "C03 C19 C20", ('''    a_powers = torch.cumprod(unrolled_a[..., 1:].flip(-1), dim=-1).flip(-1)
    a_powered = a_powers[..., 0] * unrolled_a[..., 0]
''', '''    tail = unrolled_a[..., 1:]
    a_powers = tail.flip(-1).cumprod(-1).flip(-1)
    a_powered = unrolled_a[..., 0] * a_powers[..., 0]
'''))
ref("polydiv_loop", "philtorch/poly.py", "C16 C07 C20", ('''    scale = v[..., 0].reciprocal()
    q = []
    for k in range(0, m - n + 1):
        d = scale * r[..., k]
        q.append(d)
        r[..., k : k + n + 1] -= d.unsqueeze(-1) * v

    r = r[..., m - n + 1 :]
    return torch.stack(q, dim=-1), r''', '''    quotient = []
    steps = m - n + 1
    for k in range(steps):
        coef = r[..., k] / v[..., 0]
        quotient.append(coef)
        r[..., k : k + n + 1] = r[..., k : k + n + 1] - coef[..., None] * v
    return torch.stack(quotient, dim=-1), r[..., steps:]'''))
ref("polydiv_pure", "philtorch/poly.py", "C16 C07 C20", ('''    r = u.expand(batch_shape + u.shape[-1:]).clone()
    if m < n:
        return r[..., :0], r
''', '''    r = torch.clone(u.broadcast_to(batch_shape + (m + 1,)))
    if n > m:
        empty = r[..., :0]
        return empty, r
'''))
ref("interp", "philtorch/lti/interp.py", "C17 C19 C20", ('''    if EXTENSION_LOADED:
        y = LTIRecurrence.apply(
            a.broadcast_to(x.shape[0]), zi.broadcast_to(x.shape[0]), xb
        )
    else:
        y = linear_recurrence(a.broadcast_to(x.shape[0]), zi, xb, **kwargs)
    return y
''', '''    batch = x.size(0)
    a = a.expand(batch)
    if not EXTENSION_LOADED:
        return linear_recurrence(a, zi, xb, **kwargs)
    return LTIRecurrence.apply(a, zi.expand(batch), xb)
'''), ("        c = -6 * r / (1 - r * r) * (causal_h + anticausal_h - x)\n", "        gain = 6 * r / (r**2 - 1)\n        c = gain * (causal_h - x + anticausal_h)\n"))
ref("interp_kernel", "philtorch/lti/interp.py", "C17 C19 C20", ('''    mask1 = abs_x <= 1
    mask2 = ~mask1 & (abs_x < 2)
    return torch.where(
        mask1,
        (4 - 6 * abs_x**2 + 3 * abs_x**3) / 6,
        torch.where(
            mask2,
            (2 - abs_x) ** 3 / 6,
            0.0,
        ),
    )
''', '''    inner = 2 / 3 - abs_x**2 + abs_x**3 / 2
    outer = (2 - abs_x) ** 3 / 6
    outer = torch.where(abs_x < 2, outer, torch.zeros_like(x))
    return torch.where(abs_x <= 1, inner, outer)
'''))
ref("newton_names", "philtorch/prototype/nl.py", "C22 C20", ("    computed = []\n", "    known = []\n"), ("        computed.append(next_y[:, :1])\n", "        known.append(next_y[:, :1])\n"), ("                    torch.cat(computed + [new_y[:, :1]], dim=1),", "                    torch.cat(known + [new_y[:, :1]], dim=1),"), ("    result = torch.cat(computed + [new_y[:, 1:]], dim=1)", "    result = torch.cat(known + [new_y[:, 1:]], dim=1)"))
ref("newton_delta", "philtorch/prototype/nl.py", "C22 C20", ("        res = next_y - y[:, 1:]\n", "        guess = y[:, 1:]\n        res = next_y - guess\n"), ("        new_y = torch.cat([next_y[:, :1], y[:, 2:] + delta], dim=1)\n", "        new_y = torch.cat([next_y[:, :1], delta + guess[:, 1:]], dim=1)\n"))
ref("poly_pad", "philtorch/prototype/poly.py", "C23", ('''        zr = a1.new_zeros(diff)
        val = torch.cat((zr, a1)) + a2
''', '''        val = F.pad(a1, (diff, 0)) + a2
'''), ("    diff = len(a2) - len(a1)\n    if diff == 0:\n        val = a1 - a2\n", "    diff = a2.numel() - a1.numel()\n    if diff == 0:\n        val = a1 - a2\n"))
C = "philtorch/csrc/"
ref("cpp_lti_helper", C + "host_lti_recur.cpp", "C04 C21 C20", ('''template <typename scalar_t>
void host_lti_batch_linear_recurrence(''', '''template <typename scalar_t>
inline void run_row(scalar_t *row, scalar_t coef, int64_t T)
{
    for (int64_t t = 1; t < T; ++t)
    {
        row[t] += coef * row[t - 1];
    }
}

template <typename scalar_t>
void host_lti_batch_linear_recurrence('''), ('''        const scalar_t a_b = a[b];
        scalar_t *out_b = out + b * T;

        // t loop
        for (int64_t t = 1; t < T; ++t)
        {
            out_b[t] += a_b * out_b[t - 1];
        }
''', '''        run_row(out + b * T, a[b], T);
'''))
ref("cpp_lti_carry", C + "host_lti_recur.cpp", "C04 C21 C20", ('''            out_b[t] += a_b * out_b[t - 1];
''', '''            out_b[t] = out_b[t] + out_b[t - 1] * a_b;
'''), ("        scalar_t *out_b = out + b * T;\n        // t loop\n        for (int64_t t = 1; t < T; ++t)\n        {\n            out_b[t] += a * out_b[t - 1];\n        }\n", "        // t loop\n        for (int64_t t = 0; t + 1 < T; ++t)\n        {\n            out[b * T + t + 1] += a * out[b * T + t];\n        }\n"))
ref("cpp_recur2_offsets", C + "host_recur2.cpp", "C04 C21 C20", ('''            auto offset = i * 2;
            auto e = x[offset++];
            auto f = x[offset];
            offset = i * 4;
            auto a = A[offset++];
            auto b = A[offset++];
            auto c = A[offset++];
            auto d = A[offset];
            buffer[i] = {a, b, c, d, e, f};
''', '''            const scalar_t *m = A + i * 4;
            const scalar_t *v = x + i * 2;
            buffer[i] = {m[0], m[1], m[2], m[3], v[0], v[1]};
'''))

only = [a for a in sys.argv[1:] if not a.startswith("-")]
for name, (file, checks, subs) in R.items():
    if only and name not in only:
        continue
    w = "/tmp/rf_" + name
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        p = os.path.join(w, file)
        s = open(p).read()
        for a, b in subs:
            if a not in s:
                print(name, "PATTERN NOT FOUND", a[:60])
                break
            s = s.replace(a, b)
        else:
            open(p, "w").write(s)
            if "-t" in sys.argv:
                pass
            for c in checks:
                r = subprocess.run(["bin/check", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
                head = next((l for l in r.stdout.splitlines() if l.startswith(c + ":")), r.stdout[-200:] + r.stderr[-300:])
                bad = r.returncode != 0
                und = " 0 undecided" not in head
                print("ALARM" if bad else ("undecided" if und else "ok"), name, head)
                if bad or und:
                    for l in [l for l in r.stdout.splitlines() if l.startswith("  ")][:5]:
                        print("      ", l[:330])
                sys.stdout.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)
