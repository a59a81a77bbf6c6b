/* FFT layer against the defining sums: all unit vectors (which determine a
 * linear map completely) and dense vectors, all lengths, both directions */
#include "mc.h"
const char *mc_rule = "one case = one transform length x direction: every unit vector (all of them up to the stated length, a stride-covering subset above) and dense vectors are transformed, out of place, in place and with a reused plan, and compared with the defining sums in long double; or one block of requested lengths for the next-fast-length function; distinct = hash of the rounded result";
static lcplx *tw; static unsigned twn;
static void twiddle(unsigned L, int s) {
    if (!tw) tw = malloc(sizeof(lcplx)*70000);
    for (unsigned k = 0; k < L; k++) tw[k] = cosl(2*3.14159265358979323846264338327950288L*k/L) + I*s*sinl(2*3.14159265358979323846264338327950288L*k/L);
    twn = L;
}
static double scale_for(unsigned L) { double s = 10; for (unsigned p = 2; L > 1; p++) while (L % p == 0) { s += p; L /= p; } return 6e-16*s; }
static void one(unsigned L, int dir, int all) {
    fnft__fft_wrapper_plan_t plan = fnft__fft_wrapper_safe_plan_init();
    cplx *in = fnft__fft_wrapper_malloc(L*sizeof(cplx)), *out = fnft__fft_wrapper_malloc(L*sizeof(cplx)), *in2 = malloc(L*sizeof(cplx));
    if (fnft__fft_wrapper_create_plan(&plan, L, in, out, dir)) { mc_fail("plan", "no plan of length %u", L); return; }
    twiddle(L, dir);
    double tol = scale_for(L);
    unsigned step = all ? 1 : L/37 + 1;
    for (unsigned k = 0; k < L; k += (k + step >= L && k != L-1) ? L-1-k : step) {
        for (unsigned i = 0; i < L; i++) in[i] = i == k ? 1 : 0;
        if (fnft__fft_wrapper_execute_plan(plan, in, out)) { mc_fail("status", "execution failed"); break; }
        for (unsigned i = 0; i < L; i++) {
            double e = cabs(out[i] - (cplx)tw[(unsigned long long)i*k % L]);
            if (!(e <= tol)) { mc_fail("unit vector", "k=%u i=%u error %g", k, i, e); goto end; }
        }
        if (k < 3) mc_outcome(mc_hash_d((double*)out, 2*L, dir));
    }
    for (int v = 0; v < 3; v++) {   /* dense vectors: linearity */
        double nrm = 0;
        for (unsigned i = 0; i < L; i++) { in[i] = v == 0 ? 1 : v == 1 ? cexp(I*0.7*i*i)*(i % 3) : (i%5) - 1.5 + I*((i*i)%7); if (v == 2) in[i] *= 1e30; nrm += cabs(in[i]); }
        memcpy(in2, in, L*sizeof(cplx));
        fnft__fft_wrapper_execute_plan(plan, in, out);
        if (memcmp(in2, in, L*sizeof(cplx))) mc_fail("input", "input changed by an out of place transform");
        unsigned istep = L <= 600 ? 1 : L/97 + 1;
        for (unsigned i = 0; i < L; i += istep) {
            lcplx s = 0; for (unsigned j = 0; j < L; j++) s += (lcplx)in2[j]*tw[(unsigned long long)i*j % L];
            double e = cabs(out[i] - (cplx)s);
            mc_max("dense", e/(tol*nrm));
            if (!(e <= tol*nrm)) { mc_fail("dense vector", "v=%d i=%u error %g of %g", v, i, e, nrm); goto end; }
        }
        /* round trip with a plan of the other direction */
        fnft__fft_wrapper_plan_t back = fnft__fft_wrapper_safe_plan_init();
        if (fnft__fft_wrapper_create_plan(&back, L, in, out, -dir)) { mc_fail("plan", "no inverse plan"); goto end; }
        fnft__fft_wrapper_execute_plan(back, out, in);
        for (unsigned i = 0; i < L; i++) if (!(cabs(in[i] - (double)L*in2[i]) <= 2*tol*nrm*L)) { mc_fail("round trip", "v=%d i=%u: %g%+gi vs %g%+gi", v, i, creal(in[i]/L), cimag(in[i]/L), creal(in2[i]), cimag(in2[i])); fnft__fft_wrapper_destroy_plan(&back); goto end; }
        fnft__fft_wrapper_destroy_plan(&back);
        if (back != fnft__fft_wrapper_safe_plan_init()) mc_fail("destroy", "plan not reset");
        mc_outcome(mc_hash_d((double*)out, 2*L, v));
    }
end:
    fnft__fft_wrapper_destroy_plan(&plan);
    fnft__fft_wrapper_free(in); fnft__fft_wrapper_free(out); free(in2);
}
static int smooth(unsigned long n) { while (n % 2 == 0) n /= 2; while (n % 3 == 0) n /= 3; while (n % 5 == 0) n /= 5; return n == 1; }
void explore(void) {
    unsigned Lall = mc_thorough ? 1200 : 300;
    for (unsigned L = 1; L <= Lall; L++) for (int dir = -1; dir <= 1; dir += 2)
        if (mc_begin("length %u direction %d", L, dir)) one(L, dir, 1);
    for (unsigned L = Lall+1; L <= (mc_thorough ? 65536u : 5000u); L++) {
        if (!smooth(L)) continue;
        for (int dir = -1; dir <= 1; dir += 2) if (mc_begin("long length %u direction %d", L, dir)) one(L, dir, 0);
    }
    unsigned long N = mc_thorough ? 4000000 : 200000;
    for (unsigned long b = 1; b < N; b += 5000)
        if (mc_begin("next fast length of %lu..%lu", b, b+4999))
            for (unsigned long n = b; n < b+5000; n++) {
                unsigned long r = fnft__fft_wrapper_next_fft_length(n), w = n;
                while (!smooth(w)) w++;
                if (r != w) { mc_fail("next length", "of %lu is %lu, expected %lu", n, r, w); break; }
                if (n % 997 == 0) mc_outcome(r);
            }
}
