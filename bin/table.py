RT = "run-time contract checking of the real code (bounded stand-in)"
DED = "contract-based deductive verification of the real Python source (obligations per function, all sizes), plus run-time contract checks"
TRUST = ["engine/: the contract engine (symbolic tensor semantics of the torch operations used, polynomial/sequence normal forms, path exploration)",
         "z3 (linear integer entailment of sizes and indices)", "Python's own execution of the loaded source"]
ASSUME = ["exact arithmetic: tensors hold real or complex numbers, rounding is not modelled", "sizes are unbounded mathematical integers in the Python functions"]
TABLE = {}
for k in range(1, 24):
    i = f"C{k:02d}"
    TABLE[i] = dict(technique=RT, note="bounded", meta=dict(level="exploration", ext=i not in ("C15", "C16", "C23"), noext=i not in ("C04", "C21", "C15", "C16", "C23")))


def proof(i, note, trusted=(), assumptions=(), engines=("py",), **k):
    t = TABLE[i]
    t["technique"] = DED
    t["note"] = note
    t["meta"].update(level="proof", engines=list(engines), trusted=TRUST + list(trusted), assumptions=ASSUME + list(assumptions), **k)


proof("C01", "Every listed function is verified against its contract for all sizes and paths; the compiled operators enter by contract. Run-time contract checks on the real code accompany the proof and are labelled bounded.",
      trusted=["contracts of the compiled operators (engine/contracts/ops.py; verified on the C++ source under C04)"])
proof("C03", "linear_recurrence (time-invariant and varying), its blocked evaluation and the autograd forward functions verified for all sizes; compiled operators by contract.",
      trusted=["contracts of the compiled operators (engine/contracts/ops.py; verified on the C++ source under C04)"])
proof("C05", "state_space, diag_state_space and their helpers verified for all sizes over a covering set of operand shape forms (the thorough tier takes every combination).",
      trusted=["contracts of the compiled operators (verified on the C++ source under C04)", "torch.linalg.eigvals / inv / solve return what they are defined to return"])
proof("C15", "companion, matrix_power_accumulate, matrices_cumdot and their runners verified for all counts, sizes and batch forms; vandermonde for one-dimensional poles; find_eigenvectors: column k is the normalised eigenvector of eigenvalue k (for an eigenvector that does not vanish in its first entry).",
      trusted=["torch.linalg.inv returns the inverse", "torch.linalg.solve returns the solution of a system with matrix W^H W (columns of W independent); torch.linalg.vector_norm"])
proof("C02", "recursion_loop, _recursion_loop, state_space_recursion and _ext_ss_recur of both packages verified for all sizes; compiled operators by contract.",
      trusted=["contracts of the compiled operators (engine/contracts/ops.py; verified on the C++ source under C04)", "contract of torchlpc's sample_wise_lpc (a dependency)"])
proof("C06", "lpv.state_space and its helpers verified for all sizes over a covering set of operand shape forms (the thorough tier takes every combination).",
      trusted=["contracts of the compiled operators (verified on the C++ source under C04)", "contract of torchlpc's sample_wise_lpc (a dependency)"])
proof("C09", "lti.fir, lpv.fir, lpv.allpole and diag_shift verified for all sizes and orders, both forms, with and without memory.",
      trusted=["contract of torchlpc's sample_wise_lpc (a dependency)"])
proof("C07", "lfilter with both backends: the structure equations, the returned delay line and the difference equation proved for all sizes, order relations and shapes; state_space / fir enter by their own verified contracts (C05, C09).",
      trusted=["contract of diag_state_space for a diagonalisable companion matrix (verified under C05)", "contract of polydiv (verified under C16)"])
proof("C08", "lpv lfilter with both backends: the structure equations with the coefficients of each sample and the returned delay line, proved for all sizes, order relations and shapes; state_space / fir / allpole enter by their own verified contracts (C06, C09).",
      trusted=["contract of torchlpc's sample_wise_lpc (a dependency)"])
proof("C11", "backward of the autograd Functions and of the registered formulas of lti_recur, recurN/recur2 and lti_recurN/lti_recur2: the adjoint recursion and every gradient, for all sizes, needs-patterns, real and complex; pairing lemma (adjoint of the tangent, for all directions). Second order and composed functions: run-time checks only (bounded).",
      trusted=["contracts of the compiled operators (verified on the C++ source under C04)", "PyTorch's autograd engine: composes the rules and sums gradients of expanded operands"])
proof("C12", "jvp of the autograd Functions: the tangent recursion for all sizes and every pattern of given tangents, real and complex. Composed functions, vmap and compile: run-time checks only (bounded).",
      trusted=["contracts of the compiled operators (verified on the C++ source under C04)", "PyTorch's autograd engine composes the rules"])
CXX = ["engine/cxx.py: clang's front end (AST of the real file, parsed against stub headers), the meaning given to the C++ statements and to the ATen calls used",
       "the TORCH_LIBRARY schema strings and PyTorch's dispatcher (exercised at run time)"]
CXXA = ["index arithmetic in 64-bit is treated as mathematical (sizes whose products exceed 2^62 cannot be allocated); narrowing to 32 bits of anything but the state order is an obligation",
        "the element types listed in AT_DISPATCH are not modelled (exercised at run time); kernels that are not registered, and CUDA sources, are outside"]
proof("C04", "The five registered CPU operators on their real C++ source: every loop summarised with an inductive invariant, for all batch, time and state sizes, real and complex, shared and batched: result equals the states of the recurrence, every access in bounds, parallel iterations independent, result contiguous; and for operands of arbitrary ranks and sizes: accepted exactly when the sizes fit.",
      trusted=CXX, assumptions=CXXA)
proof("C21", "The registered abstract kernels on operands of arbitrary ranks and sizes: reject what the operator's contract (verified on the C++ source under C04) rejects, accept what it accepts, with the same shape, element kind and contiguous layout.",
      trusted=CXX, assumptions=CXXA)
proof("C19", "With and without the compiled extension, for every unroll factor and both filter backends, the public functions under contract meet one and the same specification (the quick tier takes a pairwise-covering subset of the shape forms, the thorough tier all). vmap: run-time checks only (bounded).",
      trusted=["contracts of the compiled operators (verified on the C++ source under C04)", "contract of torchlpc's sample_wise_lpc (a dependency)"])
proof("C20", "Frame conditions: every function under contract is executed symbolically on all paths and sizes; a write to memory that an argument may share (views, broadcast and reshaped tensors included; C++ kernels on their source) is a violation. Covers forward, backward and jvp of the functions under contract; the others by run-time checks only (bounded).",
      trusted=CXX)
proof("C18", "comb_filter verified for every delay, length (shorter than the delay included), batch size, gain and memory form; linear_recurrence enters by its own verified contract (C03).")
proof("C13", "lfilter_zi (both forms) and lfiltic verified for all orders, order relations and batch forms; lemmas: from the fixed point the response to a constant is constant from the first sample, and the history sum is the delay line. lfilter enters through the same delay-line recurrence (C07).",
      trusted=["torch.linalg.solve(A, b) returns z with A z = b for invertible A", "contract of companion (verified under C15)"])
proof("C14", "filtfilt verified for all lengths, padding lengths and modes, orders, order relations, shape and filter forms: the signal handed to each of the two runs, the steady state it starts from and the returned signal; lemmas (all sizes): from the steady state of the first sample every form computes its response at rest to the deviation plus the gain at frequency 0 times the first sample.",
      trusted=["contracts of lfilter (verified under C07) and lfilter_zi (C13)"], assumptions=["torch.nn.functional.pad as documented (replicate, reflect, constant, circular)"])
proof("C16", "polydiv verified for all degrees, real and complex coefficients and batch forms (up to two batch dimensions, broadcast ones included): loop invariant (the working remainder is u minus the terms taken so far), the long-division coefficients, remainder shorter than the divisor, u = q v + r; the dividend comes back when it is shorter.")
proof("C17", "cspline (parallel and cascaded, both boundary conventions, with and without the compiled extension) and cubic_spline (every factor m) verified for all lengths and batch sizes over the exact number field Q(sqrt 3): all forms give the same coefficients, c[n-1] + 4 c[n] + c[n+1] = 6 x[n] for 1 <= n < L with the mirrored coefficient at the end, (L-1)m+1 samples that follow the cubic B-spline of the coefficients.",
      trusted=["the contract of linear_recurrence / LTIRecurrence (verified under C03)"], assumptions=["the float 3**0.5 - 2 is read as the exact number; the initial state is the mirror sum cut after L terms (the truncation the property allows)"])
proof("C10", "The real functions executed symbolically on two consecutive chunks, the second from the first one's final state, against the specification of the whole signal: state_space (both packages), diag_state_space, lfilter df2/tdf2 (all backends that keep a state), fir, allpole, comb_filter; all chunk lengths and sizes (any number of chunks by induction).",
      trusted=["contracts of the compiled operators (verified on the C++ source under C04)", "contract of torchlpc's sample_wise_lpc (a dependency)"])
proof("C22", "newton_solve verified for an arbitrary (uninterpreted) function and for an arbitrary affine one, for all batch, time and state sizes, initial guesses and derivative forms, with and without the compiled extension: loop invariant over the iterations (any number of them): the first samples are exact and the guess starts with the last exact one; affine functions: the correction is the whole distance, one iteration returns the exact sequence. Intermediate results: not covered.",
      trusted=["contracts of the recursions (verified under C02)", "torch.autograd.functional.jacobian returns the derivative", "torch.allclose may answer either way"], assumptions=["the function acts sample by sample and is differentiable"])
proof("C23", "trim_zeros, polyadd, polysub, polymul, polyval, polyder and polydiv verified for all lengths and all leading zeros, real and complex (polyder by induction on the order; polydiv up to the leading remainder coefficients below 1e-8 that the code drops by design); roots: companion matrix and zeros at the origin for all lengths; polysmul for one to eight polynomials. residue, residuez and sos2pfe: run-time checks only (bounded).",
      trusted=["torch.nonzero returns the sorted positions of the entries that are not zero", "torch.linalg.eigvals returns the eigenvalues (those of a companion matrix are the roots)"])
