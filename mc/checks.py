CHECKS = {}
NOT_APPLICABLE = {}
REF = ["mc.c", "ref.c"]
def chk(id, title, level, progs, technique, note, **kw):
    CHECKS[id] = dict(title=title, level=level, progs=progs, technique=technique, note=note, **kw)
EXH = "bounded-exhaustive enumeration of executions of the real code, "
chk("C11", "NSE continuous spectrum vs definition", "exploration", [dict(name="c11", srcs=REF + ["c11.c"])],
    EXH + "each compared with an independent long double model",
    "every signal over a 4-letter alphabet up to 4 (thorough 5) samples and 4 shapes at every length up to 20 (40), a ladder of lengths up to 512 (2048) with up to 31 grid points, 28 discretizations, both signs, 3 layouts, both normalizations; trusts the reference model and its tolerance")
chk("C12", "KdV continuous spectrum vs definition", "exploration", [dict(name="c12", srcs=REF + ["c12.c"])],
    EXH + "each compared with an independent long double model",
    "every real potential over a 4-letter alphabet up to 4 (5) samples and 4 shapes at every length up to 20 (40), a ladder of lengths up to 512 (2048), 56 discretizations, 3 layouts, both normalizations; trusts the reference model")
chk("C13", "Manakov continuous spectrum vs definition", "exploration", [dict(name="c13", srcs=REF + ["c13.c"])],
    EXH + "each compared with an independent long double model",
    "every pair of signals over a 4-letter alphabet up to 3 (4) samples and 16 shape pairs at every length up to 17 (34), a ladder of lengths up to 512 (2048), 13 discretizations, both signs, 3 layouts, both normalizations; trusts the reference model")
chk("C01", "Memory safety", "exploration", [dict(name="c01", srcs=REF + ["scn.c", "c01.c"], variant="asan")],
    EXH + "over the option lattice, under AddressSanitizer and UndefinedBehaviorSanitizer with exact-size arrays",
    "full product of the major options (discretization, localization, filter, representations, extrapolation, outputs, sign, length), minor options rotated through their values; memory errors that the sanitizers cannot see are not covered")
SCN = REF + ["scn.c"]
chk("C03", "Inputs, options and defaults unchanged", "exploration", [dict(name="c03", srcs=SCN + ["c03.c"])],
    EXH + "over the option lattice with byte comparison of all inputs, the option structure and the defaults before and after every call",
    "same option lattice as C01 plus 34 single-argument corruptions on a sub-lattice; calls without options are compared bit for bit with calls passing the defaults")
chk("C10", "No leaks", "exploration", [dict(name="c10", srcs=SCN + ["c10.c"], wrap=True)],
    EXH + "over the option lattice, valid and invalid, counting live heap blocks with a wrapped allocator",
    "same option lattice as C01 plus 34 single-argument corruptions on a sub-lattice")
chk("C07", "Invalid arguments rejected", "exploration", [dict(name="c07", srcs=SCN + ["c07.c"], wrap=True)],
    EXH + "every argument and option of every base call replaced by each invalid value, singly and (on a sub-lattice) in pairs, with guarded outputs and a wrapped allocator",
    "34 replacements; a table states which of them violate a documented precondition of which call")
chk("C02", "Allocation failures", "fault_enumeration", [dict(name="c02", srcs=SCN + ["c02.c"], wrap=True)],
    EXH + "with every allocation of every call made to fail, singly and together with all later ones, followed by an undisturbed call",
    "all allocation indices of every call of the small option lattice and of a fixed 29th of the medium one (thorough: all of it); one fault point per call")
chk("C04", "Results depend only on arguments", "exploration", [dict(name="c04", srcs=SCN + ["c04.c"], wrap=True)],
    EXH + "all call sequences of a pool up to a depth in fresh processes against single calls, and every call of the option lattice under four fillings of heap, stack and outputs",
    "sequences: depth 2 over 180 (thorough 700), depth 3 over 20 (64), depth 4 over 18 (thorough) calls; a dependence on memory that none of the four fillings reveals is missed")
chk("C06", "Messages", "model_checking", [dict(name="c06", srcs=SCN + ["c06.c"], wrap=True)],
    "all operation sequences of the message hook on two threads up to a depth against an explicit state model (hook per thread), each executed on the real code; plus bounded-exhaustive enumeration of valid, invalid and out-of-memory calls with captured messages and streams",
    "depth 4 (thorough 5) over 14 operations; option lattice as in C01; fault points thinned to every 13th per call in the quick tier")
chk("C08", "Counts and capacities", "exploration", [dict(name="c08", srcs=SCN + ["c08.c"], wrap=True)],
    EXH + "over the option lattice with every capacity, guard words around all outputs",
    "capacities 0..n+1 where n is the number found with ample capacity; for lists produced by refining a sub-sampled signal only the bounds and sufficiency are checked, not maximality")
chk("C09", "Subsets of outputs", "exploration", [dict(name="c09", srcs=SCN + ["c09.c"], wrap=True)],
    EXH + "over the option lattice comparing every subset of outputs and every representation with the combined call",
    "agreement to 1e-10 relative; Newton guesses, capacities and lengths as in the option lattice")
SCHEDWRAP = ["-Wl,--wrap=" + w for w in "malloc calloc realloc free memcpy memmove memset pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once rand srand random srandom drand48 lrand48 strtok _gfortran_random_r8 _gfortran_random_r4 _gfortran_random_seed_i4".split()]
chk("C05", "Concurrent calls", "model_checking", [dict(name="c05", srcs=SCN + ["msched.c", "c05.c"], variant="sched", cflags=["-D_GNU_SOURCE"], ldflags=SCHEDWRAP)],
    "stateless exploration of the real code under a controlled scheduler (own runtime behind compiler instrumentation of every memory access), all schedules up to a preemption bound, happens-before race detection on every schedule",
    "two preemptions at accesses to written shared memory for all pairs of 420 (thorough 1500) calls and triples of 20 (40); one preemption at every function entry, allocation and release for all pairs of 16 (40) calls (allocations and releases only where an execution has more than 1500 (12000) points), two at allocations and releases for all pairs of 6 (20); state inside libc, libm and libgfortran is seen only through a list of functions and through changed results")
chk("C25", "FFT layer", "exploration", [dict(name="c25", srcs=["mc.c", "c25.c"])],
    EXH + "all unit vectors of every length (a complete determination of a linear map) against the defining sums",
    "every length up to 300 (thorough 1200) with all unit vectors, every 2-3-5-smooth length up to 5000 (65536) with a subset; next fast length for every request up to 200000 (4 million)")
chk("C26", "Polynomial products", "exploration", [dict(name="c26", srcs=["mc.c", "c26.c"])],
    EXH + "all pairs of unit coefficients (a complete determination of a bilinear map) and all words of factors, against exact products",
    "pairs: every degree up to 40 (scalar), 7 (matrices; thorough 12), both memory modes; words of up to 6 (8) factors over 3 non-commuting letters; every number of factors up to 18 (40) and degree up to 6 (12) with dense data at three amplitudes; long products up to degree 2100 (4200) and 1025 factors; with and without normalization")
chk("C27", "Polynomial evaluation", "exploration", [dict(name="c27", srcs=["mc.c", "c27.c"])],
    EXH + "all unit polynomials of every degree against Horner's rule in long double",
    "evaluation: degree up to 40 (80); chirp transform: every degree and number of points up to 16 (34), 9 starts, 12 ratios, and a few long ones")
chk("C28", "Root finders", "exploration", [dict(name="c28", srcs=REF + ["c28.c"])],
    EXH + "all multisets of roots over an alphabet, all sets of unit circle roots on a lattice of sub-cell positions, against backward and forward error of independently computed roots",
    "eigenvalue method: multisets of up to 5 (6) of 12 roots, 6 coefficient families of every degree up to 60 (160) and a ladder up to 129 (256); grid searches: up to 4 (sign change) and 2 (local minimum) unit circle roots at all quarter-cell positions; the local-minimum search is required to find roots at least four cells apart and one cell inside the arc")
chk("C29", "Spectral factorization", "exploration", [dict(name="c29", srcs=REF + ["c29.c"])],
    EXH + "all coefficient words over an alphabet, against the factor built from independently computed roots",
    "words of degree up to 4 (6) over 4 letters, 4 families of every degree up to 30 (60) and a ladder up to 127, 3 scalings, 9 oversampling factors; the tolerance is the aliasing error of the method computed from the roots, problems with roots within 0.001 of the circle are skipped")
chk("C30", "Fast scattering", "exploration", [dict(name="c30", srcs=REF + ["c30.c"])],
    EXH + "all coefficients of the polynomial transfer matrix (hence every spectral parameter) against ordered products of reference sample matrices",
    "every pair (q,r) of a 6x6 alphabet for one step, all words up to 4 (thorough 5) samples (2 (3) for the degree 105 schemes), every length up to 20 (40; less for high degrees), a ladder of lengths up to 256 (product degree up to 530 (1100)), 3 step sizes, all discretizations of the AKNS, NSE, KdV and Manakov problems, with and without normalization")
chk("C31", "Fast inverse scattering", "exploration", [dict(name="c31", srcs=REF + ["c31.c"])],
    EXH + "all words of samples, their transfer matrix built in long double and by the library, against the samples themselves",
    "words of 2, 4 and 8 samples over 8, 6 (thorough 8) and 3 (4) letters, shapes up to 64 (256) samples, two schemes, both signs, three scalings of the matrix; every unsupported call is tried for lengths up to 9; inverting the KdV version of 2SPLIT2A is required to second order only (known finding)")
chk("C33", "List utilities", "exploration", [dict(name="c33", srcs=["mc.c", "c33.c"])],
    EXH + "all lists over an alphabet with ties and edge values x all boxes, tolerances and companions, against the definitions",
    "filters: lists up to 5 (thorough 6) of 8 values x 9 valid and 6 invalid boxes; merging: up to 6 (7) of 7 collinear values x 8 tolerances; distances: all pairs of lists up to 4 (5) of 4 values; 12 patterns of lists of up to 300 entries; helpers on fixed argument lattices")
chk("C32", "Resampling and downsampling", "exploration", [dict(name="c32", srcs=REF + ["c32.c"])],
    EXH + "all unit vectors of every length (a complete determination of a linear map) against the trigonometric interpolant, every requested count of every length, every discretization's preprocessing against its sample points",
    "resampling: lengths up to 80 (thorough 300), 21 shifts; downsampling: lengths up to 250 (600), every count; preprocessing: all discretizations, lengths up to 21 (40), 4 shapes, every count, and all words of up to 5 (6) samples over 3 letters")
chk("C34", "Discretization tables", "exploration", [dict(name="c34", srcs=REF + ["c34.c"])],
    EXH + "every entry of every table combined with the transfer matrices the library builds and compared with the definition",
    "all 125 discretizations; maps on a lattice of 54 points within the band x 4 steps; changes of basis at 8 complex points, derivatives by Cauchy integrals; assembly of a, b, b/a from the tables for every length up to 9 (24), 3 intervals, 3 shapes, both signs, 3 frequencies")
chk("C36", "Slow scattering", "exploration", [dict(name="c36", srcs=REF + ["c36.c"])],
    EXH + "all words of samples and a lattice of complex spectral parameters (with exact turning points of the samples) against the long double reference and its Cauchy derivatives",
    "words of up to 4 (thorough 5) samples over 4 letters and 4 shapes of every length up to 17 (40) and 64, 100, 129, all 23 sample-wise schemes of the NSE, KdV and Manakov problems, 11 fixed and up to 8 signal-dependent parameters in both orders, with and without scaling; b at zeros of the reference a (with conditioning-dependent tolerance)")
chk("C15", "Normalization", "exploration", [dict(name="c15", srcs=REF + ["c15.c"])],
    EXH + "both settings of the option executed for every configuration and compared with each other, and with the long double reference or closed forms where the unnormalized computation leaves the range",
    "continuous spectra: all discretizations, 5 amplitudes from 1e-8 to 30, lengths up to 17 (thorough 48), with and without extrapolation; overflow: all fast discretizations, 4 amplitudes, lengths up to 64 (128); discrete spectra: all localization methods, lengths up to 32 (64), 3 amplitudes; windows up to 900 long with up to 3 solitons; periodic problems of 8 and 16 samples")
chk("C14", "Conservation laws and b/a", "exploration", [dict(name="c14", srcs=REF + ["c14.c"])],
    EXH + "the conservation law and the quotient b/a evaluated on the reported coefficients of every execution (monitors that need no reference; the long double model only supplies the conditioning)",
    "NSE MODAL, 1A, 1B, 2A, 2B, BO, CF4_2, CF4_3, ES4, TES4, KdV BO, ES4, TES4, CF4_2/CF4_3 (odd lengths), Manakov BO, CF4_2, FTES4_suzuki for the law, all discretizations for the quotient; every word of up to 4 (thorough 5) samples, 4 shapes at every length up to 20 (60), 3 layouts")
chk("C16", "Symmetries", "exploration", [dict(name="c16", srcs=REF + ["c16.c"])],
    EXH + "the transform of the signal and of its image under each symmetry executed and compared by the exact transformation law",
    "phase rotation, time shift, time reversal, conjugation, scaling, component exchange and mixing; all discretizations and localization methods for continuous, discrete and periodic spectra; words of up to 4 (thorough 5) samples and shapes up to 17 (40) samples")
chk("C17", "Richardson extrapolation", "exploration", [dict(name="c17", srcs=REF + ["c17.c"])],
    EXH + "the extrapolated spectra compared with the order-dependent combination of two independent long double references (continuous) and of matched values (discrete)",
    "all discretizations of the three transforms, both signs, 3 layouts, both normalizations, words of up to 5 (thorough 6) samples over 3 letters, 4 shapes at every length up to 20 (40), grids inside and outside the band; discrete spectra of 3 pulse families at lengths up to 49 (65), all localization methods, with points near the match threshold skipped")
chk("C18", "NSE bound states", "exploration", [dict(name="c18", srcs=REF + ["c18.c"])],
    EXH + "reported sets compared with all roots of the reference polynomial (interpolated and solved in long double), Newton paths replayed on the reference step by step, and zeros counted by the argument principle",
    "28 discretizations, 3 localizations, 4 filters; words of up to 4 (thorough 5) samples over 4 letters, 4 shapes up to 17 (33) samples, pulses up to 96 (160) samples; 0, 1, 2 and 60 iterations, tolerances auto, 1e-12 and 1e-3; zeros worse conditioned than 1e-3 or closer than 1e-6 to another or to the filter's border are not judged")
chk("C19", "NSE norming constants and residues", "exploration", [dict(name="c19", srcs=REF + ["c19.c"])],
    EXH + "compared with b and b/a' of the long double reference at the zeros found by Newton's method on the reference; the three representations compared with each other",
    "28 discretizations, 3 localizations, 4 filters, both normalizations; words of up to 5 (thorough 6) samples over 4 letters with the zeros as initial guesses in 4 orders and distances; shifted pulses of up to 48 (96) samples with up to 4 eigenvalues")
chk("C20", "KdV bound states", "exploration", [dict(name="c20", srcs=REF + ["c20.c"])],
    EXH + "reported lists compared with all zeros of the long double reference on the imaginary axis found by a fine scan of a and bisection; norming constants and residues compared with b and b/a' there",
    "all KdV discretizations with a sample-wise form, both localizations (grid search with several spacings, Newton from the zeros and their neighbourhood), three representations; words over small alphabets, sech-squared pulses with up to 4 solitons; zeros closer than the grid spacing or to its ends are not judged")
chk("C21", "Manakov bound states", "exploration", [dict(name="c21", srcs=REF + ["c21.c"])],
    EXH + "reported sets compared with all roots of the reference polynomial (interpolated and solved in long double), zeros counted by the argument principle, and the set compared over every combination of the other outputs",
    "all fast Manakov discretizations, 3 filters, 2 signs, subsampling factors; words of up to 3 (thorough 4) samples, shapes and vector pulses; zeros worse conditioned than 1e-3 are not judged")
chk("C22", "Main and auxiliary spectra", "exploration", [dict(name="c22", srcs=REF + ["c22.c"])],
    EXH + "reported points compared with all roots of the reference polynomials of the monodromy matrix for every requested Floquet value (refinement paths replayed on the reference), residuals of all other points, plane waves against their closed-form spectrum",
    "all fast and slow discretizations, 4 localizations, 3 filters, phase shifts, Floquet ranges, points per spine, subsampling; words of 2 and 4 samples, shapes up to 32 (128) samples; ill-conditioned roots and points near double roots judged by the residual only")
chk("C23", "Inverse transform: round trip", "exploration", [dict(name="c23", srcs=REF + ["c23.c"])],
    EXH + "forward transform (long double reference) of the returned signal compared with the supplied spectrum: all b coefficients and the zero count of a (b, B(tau)), the first D coefficients of the impulse response (reflection coefficient), all values (iterative method)",
    "both discretizations, both signs, 3 representations, all inversion methods, 5 intervals, M from D to 16 D, oversampling 1 to 32; all words of 2, 4 and 8 coefficients over small alphabets, 6 smooth and rough shapes up to 64 (256) samples; spectra with |b| near 1 and too little oversampling (predicted aliasing above 1e-3) are not judged; strong reflection coefficients with the iterative method only to 1e-2")
chk("C24", "Inverse transform: solitons", "exploration", [dict(name="c24", srcs=REF + ["c24.c"])],
    EXH + "returned signals compared sample by sample with the N-fold Darboux transform in its symmetric (determinant) form in long double, built on the solutions for the seed; zeros of a, their number and b (or b/a') of the returned signal compared with the request where the window is large enough",
    "every subset of up to 4 (thorough 5) of 7 eigenvalues in every order, up to 6 sets of norming constants or residues, 6 intervals, up to 256 samples; no seed, 6 seeds (also with |q| = Im lambda exactly), 3 kinds of continuous spectra; every list of up to 4 values over 6 letters for the refusals; positions at which the Darboux system is worse conditioned than 1e-3 are not judged")
chk("C35", "Orders of convergence", "exploration", [dict(name="c35", srcs=REF + ["c35.c"])],
    EXH + "along ladders of lengths with halving step sizes, the errors being taken with respect to the independently integrated differential equations (long double Runge-Kutta with extrapolation)",
    "all discretizations of the three transforms, both signs, with and without extrapolation, three representations, several smooth signals and intervals; ladders of 5 (thorough 6) lengths; measured order at least the documented one minus 0.6, rounding floor 1e-13 times the degree and length")
