"""The property catalogue; mkmanifest.py writes properties.jsonl and
MANIFEST.json from this file and from checks.py."""
H = "include/fnft_"
S = "src/fnft_"
P = "src/private/fnft__"
PROPS = []
def prop(id, title, statement, over, text, tests, files, mech, observe):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=tests, anchors=dict(files=files, mechanism=mech, observe_at=observe)))

# ---------------------------------------------------------------- safety
prop("C01", "Every transform is memory safe for every valid call",
 "For every combination of documented options, signal lengths, grid sizes and optional outputs, each transform (NSE vanishing, NSE periodic, KdV, Manakov, inverse NSE) reads and writes only the caller's arrays within their documented extents, executes no undefined behaviour, and returns. Optional outputs may be absent (null) in any documented combination.",
 ["configurations", "inputs"], "all option combinations x sample counts x grid sizes x presence of each output x capacities, over a small alphabet of signals",
 "The tests run one nominal size and a handful of option settings per transform, with generously sized arrays and without sanitizers; corner combinations (extrapolation with residues, subsampling, tiny arrays, absent outputs) are never executed.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c", S+"nsev_inverse.c"],
 ["fnft_nsev", "fnft_nsep", "fnft_kdvv", "fnft_manakovv", "fnft_nsev_inverse"],
 ["caller-supplied arrays allocated at exactly the documented size", "sanitizer reports", "process exit"])
prop("C02", "Running out of memory at any point is reported and does no harm",
 "If any single memory allocation (or every one from some point on) made during a call fails, the call returns a nonzero error code or completes as documented without crashing, and releases everything it allocated. An identical call made afterwards with memory available gives the same result as if the failure had never happened.",
 ["fault_sequences", "configurations"], "every allocation index of every scenario, failing once or failing from there on, over the option lattice",
 "No test makes an allocation fail.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c", S+"nsev_inverse.c", P+"poly_fmult.c", P+"akns_scatter.c", P+"misc.c"],
 ["CHECK_NOMEM", "leave_fun cleanup paths"], ["return code", "live heap blocks", "result of the following call"])
prop("C03", "Calls do not modify inputs, options or library defaults",
 "A call, successful or failing, leaves its input arrays and the caller's option structure bit for bit unchanged, and leaves the library's default options unchanged. Omitting the options is the same as passing the documented defaults, before and after any other call.",
 ["inputs", "configurations", "histories"], "all option combinations, sizes and early-exit paths, including calls that fail",
 "The tests never compare inputs and option structures before and after a call.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c", S+"nsev_inverse.c"],
 ["default_opts", "opts->bound_state_localization", "opts->discspec_type", "update_bounding_box_if_auto"],
 ["byte comparison of inputs and options", "default option getters", "results with options omitted"])
prop("C04", "Results depend only on the arguments, never on earlier calls or memory",
 "The outputs and the status of a call are a function of its arguments alone: repeating it gives identical bits, any sequence of other library calls (including failing ones) beforehand changes nothing, and the previous contents of heap memory or of the output arrays have no influence.",
 ["histories", "inputs"], "all sequences of library operations up to a depth, all fill patterns of fresh memory and of outputs",
 "Every test is a fresh process performing a fixed sequence of calls.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c", S+"nsev_inverse.c", P+"poly_roots_fasteigen.c", P+"fft_wrapper.h"],
 ["static storage", "uninitialised heap reads"], ["output bits", "return codes"])
prop("C05", "Concurrent calls on separate data do not influence each other",
 "When several threads call the library at the same time on separate data, every call returns exactly what it returns when running alone, for every interleaving, with no data race. This includes calls that omit the options.",
 ["schedules"], "all interleavings of two or three concurrent calls at accesses to memory shared between threads, up to a preemption bound",
 "All tests are single-threaded.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c", S+"nsev_inverse.c", "src/3rd_party/eiscor", S+"errwarn.c"],
 ["default_opts", "Fortran module state", "thread-local print hook"], ["results per thread", "shared-memory accesses"])
prop("C06", "Status code and message hook report errors, and only errors",
 "A call that cannot deliver what it promises returns a nonzero code and emits at least one message through the installed print hook; a call that succeeds returns zero, emitting only warnings. The hook is per thread, can be silenced and restored, and a message never goes anywhere else than to the hook.",
 ["configurations", "histories"], "all failing and succeeding calls of the lattice, under all hook settings and sequences of hook changes",
 "The tests never look at messages and install no hook.",
 [S+"errwarn.c", P+"errwarn.c", H+"errwarn.h"], ["fnft_errwarn_setprintf", "fnft_errwarn_getprintf", "fnft__errmsg_aux"],
 ["hook invocations", "stdout/stderr", "return code"])
prop("C07", "Invalid arguments are rejected before anything is written",
 "Every documented precondition that can be checked (null or missing arrays, too few samples, reversed or empty intervals, kappa other than +1/-1, unsupported discretization or option value, lengths that are not powers of two where required) makes the call return an error code. Invalid arguments are detected before any output array is written, and nothing remains allocated afterwards.",
 ["inputs", "configurations"], "every argument of every public entry point replaced by each invalid value, singly and in pairs, over base calls of the option lattice",
 "The tests pass invalid arguments in almost no case.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c", S+"nsev_inverse.c"], ["E_INVALID_ARGUMENT checks"], ["return code", "output arrays", "live heap"])
prop("C08", "Counts and capacities of the spectra are honoured",
 "Reported discrete spectra never exceed the capacity given by the caller, the returned count says exactly how many leading entries were written, no entry is written beyond capacity, and if the capacity is too small the documented outcome happens (as many as possible with a warning, or an error). Continuous spectra fill exactly the documented number of entries.",
 ["configurations", "inputs"], "all capacities from 0/1 to more than enough, for all options and output combinations",
 "The tests always pass the maximal capacity.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c"], ["K_ptr", "M_ptr"], ["guard words around outputs", "counts", "messages"])
prop("C09", "Asking for several spectra at once equals asking for each alone",
 "The continuous spectrum, the bound states and the norming constants/residues (and the main and auxiliary spectra) returned by one call are the same as when each is requested in a call of its own; in the combined representations each part equals the part returned by the single representation.",
 ["configurations", "inputs"], "all subsets of outputs and all representation choices for all options",
 "The tests request one fixed set of outputs per test.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c"], ["contspec_type", "discspec_type", "fnft_nsev_base"], ["output arrays"])
prop("C10", "Every call releases all memory it allocates",
 "After every call, successful or rejected, for every option combination and output subset, the number of live heap blocks is what it was before the call.",
 ["configurations", "inputs"], "all calls of the option lattice including those that fail at any validation stage",
 "The tests do not measure the heap.",
 [S+"nsev.c", S+"nsep.c", S+"kdvv.c", S+"manakovv.c", S+"nsev_inverse.c", P+"akns_fscatter.c", P+"poly_fmult.c"], ["leave_fun / release_mem labels"], ["live heap blocks"])
# ---------------------------------------------------------------- forward transforms, continuous
prop("C11", "The NSE continuous spectrum equals its definition for every discretization",
 "For every signal, interval, grid and sign, the reflection coefficient and the scattering coefficients a and b returned by the vanishing-boundary NSE transform equal, up to rounding, those obtained by multiplying out the per-sample transfer matrices of the selected discretization as defined in the documented literature and applying the boundary conditions at the ends of the interval.",
 ["inputs", "configurations"], "all short signals over an alphabet x all discretizations x signs x intervals x grids x representations x normalization",
 "The tests compare two analytic signals with a hand-tuned error bound each; offsets of the interval, asymmetric signals, tiny lengths and most option combinations are not covered.",
 [S+"nsev.c", P+"akns_fscatter.c", P+"akns_scatter.c", P+"nse_discretization.c"], ["compute_contspec", "akns_fscatter", "akns_scatter_matrix", "phase factors"], ["contspec"])
prop("C12", "The KdV continuous spectrum equals its definition for every discretization",
 "For every real potential, interval and grid avoiding zero, the reflection coefficient and scattering coefficients returned by the KdV transform equal, up to rounding, those obtained from the product of the per-sample transfer matrices of the selected discretization after the change of basis.",
 ["inputs", "configurations"], "all short potentials over an alphabet x all 56 discretizations x intervals x grids x representations x normalization",
 "The tests compare three analytic potentials with hand-tuned bounds.",
 [S+"kdvv.c", P+"kdv_fscatter.c", P+"kdv_scatter.c", P+"kdv_discretization.c", P+"akns_discretization.c"], ["compute_contspec", "change of state matrices"], ["contspec"])
prop("C13", "The Manakov continuous spectrum equals its definition for every discretization",
 "For every pair of signals, interval, grid and sign, the reflection coefficients and the scattering coefficients a, b1, b2 returned by the Manakov transform equal, up to rounding, those obtained by multiplying out the per-sample 3x3 transfer matrices of the selected discretization and applying the boundary conditions.",
 ["inputs", "configurations"], "all short two-component signals over an alphabet x all 13 discretizations x signs x intervals x grids x representations x normalization",
 "The tests compare two analytic signals with hand-tuned bounds.",
 [S+"manakovv.c", P+"manakov_fscatter.c", P+"manakov_scatter.c", P+"manakov_discretization.c"], ["compute_contspec", "manakov_fscatter"], ["contspec"])
prop("C14", "Scattering coefficients satisfy the conservation law of the equation",
 "On the real axis |a|^2 + kappa|b|^2 = 1 for the NSE and |a|^2 + kappa(|b1|^2+|b2|^2) = 1 for Manakov for every discretization whose transfer matrices are exactly unitary, and b/a always equals the reported reflection coefficient; for the KdV |a|^2 - |b|^2 = 1 for every discretization with the corresponding structure.",
 ["inputs", "configurations"], "all short signals over an alphabet x discretizations x grids",
 "The tests check values for two analytic signals only.",
 [S+"nsev.c", S+"kdvv.c", S+"manakovv.c"], ["compute_contspec"], ["contspec"])
prop("C15", "Internal normalization never changes a result",
 "Switching the normalization option on or off changes no reported spectrum (continuous or discrete) beyond rounding, for every transform, discretization and signal amplitude for which the computation without normalization stays in range; with normalization on, large amplitudes and long windows do not overflow: the reflection coefficient computed by fast forward scattering and the discrete spectra stay correct.",
 ["configurations", "inputs"], "both flag values x all options x signals of widely different amplitude",
 "The tests compare flag settings on at most one signal per transform.",
 [S+"nsev.c", S+"kdvv.c", S+"manakovv.c", P+"poly_fmult.c", P+"akns_scatter.c"], ["normalization_flag", "W", "log_scaling_factors"], ["contspec", "bound_states", "normconsts_or_residues"])
prop("C16", "The spectra transform correctly under the symmetries of the equations",
 "A phase rotation, time shift of the interval, time reversal, conjugation, scaling of time and amplitude, or exchange of the two Manakov components changes every reported spectrum exactly as theory prescribes.",
 ["inputs", "configurations"], "each symmetry x all short signals x all options",
 "The tests do not relate two calls to each other.",
 [S+"nsev.c", S+"kdvv.c", S+"manakovv.c", S+"nsep.c"], ["boundary phase factors", "eps_t"], ["contspec", "bound_states", "normconsts_or_residues", "main_spec", "aux_spec"])
prop("C17", "Richardson extrapolation is the documented combination of two transforms",
 "With extrapolation on, the reported continuous spectrum is the order-dependent linear combination of the transform of the full signal and that of the subsampled signal, applied to every reported entry; discrete spectra are the combination of matched values, and unmatched or out of range ones stay as computed without extrapolation.",
 ["inputs", "configurations"], "all discretizations x representations x signals x output subsets",
 "The tests only check that the error of one signal decreases.",
 [S+"nsev.c", S+"kdvv.c", S+"manakovv.c"], ["scl_num", "scl_den", "contspec_sub"], ["contspec", "bound_states", "normconsts_or_residues"])
# ---------------------------------------------------------------- discrete spectra
prop("C18", "Reported NSE bound states are genuine, distinct and complete",
 "Every bound state reported for a focusing signal is, to the precision of the localization method and unless a warning about missing convergence is issued, a zero of a satisfying the requested filter and distinct from the others; the eigenvalue method reports all of them, the subsampling method all those its refinement leads to. Refinement of initial guesses is Newton's method with the requested number of iterations and tolerance, the results being handled as the filter says; defocusing signals report none.",
 ["inputs", "configurations"], "all short focusing signals over an alphabet and multi-soliton signals x localization x filter x discretization x subsampling",
 "The tests use two analytic signals per method.",
 [S+"nsev.c", P+"poly_roots_fasteigen.c", P+"misc.c", P+"nse_scatter.c"], ["tf2boundstates", "refine_roots_newton", "misc_filter", "misc_merge"], ["bound_states", "K"])
prop("C19", "Norming constants and residues belong to the reported bound states",
 "For every reported bound state of the NSE transform, the norming constant is the proportionality factor b of the discretized scattering problem at that eigenvalue, the residue is b divided by the derivative of a there, and both are listed in the order of the bound states, whichever representations are requested.",
 ["inputs", "configurations"], "all focusing signals of the alphabet x discretizations x representations x intervals x user-supplied eigenvalues",
 "The tests check three eigenvalues of one analytic signal.",
 [S+"nsev.c", P+"nse_scatter.c", P+"akns_scatter.c"], ["compute_normconsts_or_residues", "nse_scatter_bound_states"], ["normconsts_or_residues"])
prop("C20", "KdV bound states are genuine and complete, with matching norming constants",
 "Every bound state reported by the KdV transform lies on the positive imaginary axis and is a zero of a for the selected discretization, each zero separated by more than the grid spacing is found exactly once in order, and its norming constant and residue are those of the discretized scattering problem at it.",
 ["inputs", "configurations"], "all short potentials over an alphabet x discretizations x localization x grid spacing x representations",
 "The tests use three analytic potentials.",
 [S+"kdvv.c", P+"kdv_scatter.c"], ["kdvv_compute_boundstates", "kdvv_refine_bound_states_newton", "kdvv_compute_normconsts_or_residues"], ["bound_states", "normconsts_or_residues", "K"])
prop("C21", "Manakov bound states are genuine, distinct and complete",
 "Every bound state reported by the Manakov transform is a zero of a of the (sub)sampled signal for the selected discretization in the upper half plane, passes the filter, is reported once, and none within the band is missing; the set does not depend on which other outputs are requested.",
 ["inputs", "configurations"], "all short focusing two-component signals x discretizations x filters x subsampling x output subsets",
 "The tests use one analytic signal.",
 [S+"manakovv.c", P+"poly_roots_fasteigen.c", P+"misc.c"], ["tf2boundstates"], ["bound_states", "K"])
prop("C22", "The periodic NSE transform reports genuine main and auxiliary spectra",
 "Every reported main spectrum point makes the trace of the monodromy matrix of one period equal to the requested Floquet values, every auxiliary point is a zero of its off-diagonal element, all lie in the requested bounding box with the right sheet index, the eigenvalue-based method misses none, and quasi-periodic phase shifts are accounted for.",
 ["inputs", "configurations"], "all short periodic signals over an alphabet x localization x filters x discretizations x phase shifts x Floquet ranges x output subsets",
 "The tests use plane waves and one constant-defocusing case.",
 [S+"nsep.c", P+"nse_scatter.c", P+"poly_roots_fftgridsearch.c"], ["subsample_and_refine", "gridsearch", "newton", "refine_mainspec", "refine_auxspec"], ["main_spec", "aux_spec", "sheet_indices", "K", "M"])
# ---------------------------------------------------------------- inverse
prop("C23", "The inverse NSE transform inverts the forward transform",
 "Applying the forward transform to the signal returned by the inverse transform gives back the continuous spectrum that was supplied, for every supported discretization, spectrum type, inversion method, interval, grid and sign, within the documented approximation; the grid helper returns exactly the frequencies this requires.",
 ["inputs", "configurations"], "all spectra generated from short signals over an alphabet x supported options x intervals",
 "The tests use four analytic spectra at fixed options.",
 [S+"nsev_inverse.c", P+"nse_finvscatter.c", P+"poly_specfact.c"], ["transfer_matrix_from_reflection_coefficient", "transfer_matrix_from_B_of_xi", "nse_finvscatter", "fnft_nsev_inverse_XI"], ["q", "XI"])
prop("C24", "The inverse transform inserts exactly the requested solitons",
 "The signal returned for a given discrete spectrum has, under the forward transform, exactly the supplied eigenvalues with the supplied norming constants or residues, for any order of the list and with or without an accompanying continuous spectrum or seed signal (with a given seed signal, residues are those of the solitons alone), and lists with repeated or non-positive imaginary eigenvalues are refused.",
 ["inputs", "configurations"], "all eigenvalue sets of size 1..3 over an alphabet x norming constants x representation x list order x seeds x intervals",
 "The tests use one soliton list.",
 [S+"nsev_inverse.c"], ["add_discrete_spectrum", "compute_eigenfunctions", "Darboux transform"], ["q"])
# ---------------------------------------------------------------- numerical building blocks
prop("C25", "The FFT layer computes the discrete Fourier transform and its inverse",
 "For every supported length the forward and inverse transforms equal the defining sums, the inverse of the forward is length times the input, and the returned next fast length is the smallest supported length not below the request.",
 ["inputs"], "all lengths up to a bound x all unit impulses (a basis), both directions, plus signed combinations",
 "One length and one vector are tested.",
 [P+"fft_wrapper.h", "src/3rd_party/kiss_fft/kiss_fft.c"], ["fft_wrapper_execute_plan", "fft_wrapper_next_fft_length"], ["transformed vector", "length"])
prop("C26", "Fast polynomial products equal the exact products",
 "The fast product of any number of scalar polynomials, 2x2 or 3x3 polynomial matrices of any degrees equals the exact product in the given order, times the reported power of two when normalization is on, and normalized leading magnitudes stay within the documented range.",
 ["inputs"], "all numbers of factors and degrees up to a bound, coefficients over an alphabet and basis vectors, both normalization settings",
 "Fixed random-looking examples with power of two and one other count.",
 [P+"poly_fmult.c"], ["poly_fmult", "poly_fmult2x2", "poly_fmult3x3", "poly_rescale"], ["result coefficients", "exponent"])
prop("C27", "Polynomial evaluation is correct at every point set",
 "Pointwise evaluation of a polynomial (and its derivative) and evaluation on any spiral of points through the chirp transform equal the defining sums for every degree, number of points, start and ratio.",
 ["inputs"], "all degrees and point counts up to a bound x basis polynomials x start points x ratios",
 "One degree and one spiral are tested.",
 [P+"poly_eval.c", P+"poly_chirpz.c"], ["poly_eval", "poly_evalderiv", "poly_chirpz"], ["values"])
prop("C28", "The root finders return all roots, each once",
 "The eigenvalue-based finder returns degree many values that are the roots with multiplicity of the polynomial; the unit-circle grid search returns nothing but roots on the requested arc; the sign-change search returns every simple root separated from the others by more than the grid spacing exactly once, the local-minimum search every root at least four grid spacings away from the others and one cell inside the arc, within capacity.",
 ["inputs"], "all root configurations from an alphabet of roots and multiplicities up to a degree, all small arcs, grids and capacities",
 "Two fixed polynomials per finder.",
 [P+"poly_roots_fasteigen.c", P+"poly_roots_fftgridsearch.c", "src/3rd_party/eiscor"], ["poly_roots_fasteigen", "poly_roots_fftgridsearch", "poly_roots_fftgridsearch_paraherm"], ["roots"])
prop("C29", "Spectral factorization satisfies its defining identity",
 "For every polynomial B with modulus suitably bounded on the unit circle the computed polynomial A satisfies |A|^2 = 1 - kappa |B|^2 (with the documented sign) on the unit circle and has no roots on the wrong side.",
 ["inputs"], "all coefficient vectors over an alphabet x degrees x oversampling factors x sign",
 "Two fixed examples.",
 [P+"poly_specfact.c"], ["poly_specfact"], ["result coefficients"])
prop("C30", "Fast scattering equals sample-by-sample scattering",
 "For every discretization of the NSE, KdV and Manakov problems and for every number of samples, the polynomial transfer matrix built by the fast algorithm, evaluated at the discretization's map of the spectral parameter, equals the ordered product of the individual sample matrices.",
 ["inputs", "configurations"], "all discretizations x sample counts x signals over an alphabet x points on and off the real axis x normalization",
 "One signal per discretization with stored values.",
 [P+"akns_fscatter.c", P+"nse_fscatter.c", P+"kdv_fscatter.c", P+"manakov_fscatter.c"], ["akns_fscatter", "manakov_fscatter"], ["transfer_matrix"])
prop("C31", "Fast inverse scattering recovers the samples",
 "For every supported discretization, number of samples and signal with admissible samples, inverse scattering of the fast scattering result returns the original samples; unsupported discretizations are rejected without harm.",
 ["inputs", "configurations"], "all signals over an alphabet x power of two lengths x discretizations x signs",
 "One random-looking signal per discretization.",
 [P+"nse_finvscatter.c", P+"kdv_finvscatter.c", P+"akns_finvscatter_q_from_r.inc"], ["nse_finvscatter", "kdv_finvscatter"], ["q"])
prop("C32", "Resampling and downsampling preserve the signal as specified",
 "Shifting a signal in time equals the band-limited shift for every length, shift and content, a shift by whole samples permutes them and opposite shifts cancel; downsampling picks evenly spaced samples starting with the first, consistently with the adjusted interval, for every requested count.",
 ["inputs"], "all lengths up to a bound x basis signals x shifts x requested counts",
 "One signal and one shift are tested.",
 [P+"misc.c", P+"akns_discretization.c", P+"nse_discretization.c"], ["misc_resample", "misc_downsample", "nse_discretization_preprocess_signal"], ["samples", "indices"])
prop("C33", "The list utilities for spectra do what they say on every list",
 "Merging removes exactly the near-duplicates, box filtering and inverse filtering keep exactly the matching entries in order, and companion lists stay aligned, for every list, order, tolerance and box; distances between lists and the analytic helper functions equal their definitions.",
 ["inputs"], "all lists up to a length over an alphabet of points with ties, and all boxes and tolerances of an alphabet",
 "One list per function.",
 [P+"misc.c"], ["misc_merge", "misc_filter", "misc_filter_inv", "misc_filter_nonreal", "misc_hausdorff_dist", "misc_matrix_mult"], ["lists", "lengths"])
prop("C34", "The discretization tables are mutually consistent",
 "For every discretization, degree, sample count, boundary coefficient, upsampling factor, order and the two maps between spectral parameter and polynomial variable are consistent with each other and with the transfer matrices actually built; the maps are inverse to each other within the band.",
 ["configurations", "inputs"], "all discretizations x step sizes x grid of spectral parameters",
 "Degrees and maps are not tested on their own.",
 [P+"akns_discretization.c", P+"nse_discretization.c", P+"kdv_discretization.c", P+"manakov_discretization.c"], ["*_discretization_degree", "*_lambda_to_z", "*_z_to_lambda", "*_method_order"], ["returned values"])
prop("C35", "Errors decrease with the advertised order of each discretization",
 "When a smooth signal is sampled more finely, the error of the continuous spectrum with respect to the exact solution of the differential equations decreases at least with the documented order of the selected discretization (for xSPLITyz the smaller one of x and y), and with at least one order more with Richardson extrapolation (except for 2SPLIT1A and 2SPLIT1B, whose error is of first order while the extrapolation assumes the second), for every discretization of every transform.",
 ["configurations", "inputs"], "all discretizations x several smooth signals x sequences of refinements",
 "The tests compare two sample counts for analytic signals with hand-tuned bounds.",
 [S+"nsev.c", S+"kdvv.c", S+"manakovv.c", P+"akns_discretization.c"], ["discretization tables", "preprocess_signal"], ["contspec"])
prop("C36", "Slow scattering and its derivative agree with the definition off the real axis",
 "For every slow or fast discretization with a sample-wise implementation, the scattering matrix, its derivative with respect to the spectral parameter, and the bound state scattering values a and its derivative equal the exact ones of the discretized problem at every complex point, including points where intermediate quantities vanish; the value b equals the exact one at the zeros of a.",
 ["inputs", "configurations"], "all short signals over an alphabet x discretizations x complex spectral parameters including degenerate ones x both signs",
 "Stored values for one signal at a few points.",
 [P+"akns_scatter.c", P+"nse_scatter.c", P+"kdv_scatter.c", P+"manakov_scatter.c"], ["akns_scatter_matrix", "akns_scatter_bound_states", "manakov_scatter_matrix"], ["matrix entries", "a, aprime, b"])
