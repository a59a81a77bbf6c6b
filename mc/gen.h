/* alphabets */
#ifndef GEN_H
#define GEN_H
static const cplx gen_alpha[8] = {0, 0.9, -0.4+0.7*_Complex_I, 1.6*_Complex_I, -1.3, 0.2-0.1*_Complex_I, 2.5, 1e-3};
static inline uint64_t gen_count(unsigned D, unsigned k) { uint64_t r = 1; while (D--) r *= k; return r; }
static inline void gen_signal(unsigned D, unsigned k, uint64_t code, cplx *q) { for (unsigned i = 0; i < D; i++) { q[i] = gen_alpha[code % k]; code /= k; } }
static inline void gen_signal_real(unsigned D, unsigned k, uint64_t code, cplx *q) {
    static const double al[6] = {0, 0.9, -1.1, 2.3, 0.3, -0.2};
    for (unsigned i = 0; i < D; i++) { q[i] = al[code % k]; code /= k; }
}
#define GEN_SHAPES 4
/* fixed smooth and rough shapes on the interval */
static inline void gen_shape(unsigned D, int sh, const double *T, cplx *q) {
    for (unsigned i = 0; i < D; i++) {
        double t = D > 1 ? 2.0*i/(D-1)-1 : 0, s = T[1]-T[0];
        switch (sh) {
        case 0: q[i] = 1.3/cosh(2.5*t)*cexp(_Complex_I*0.8*t); break;                 /* pulse with chirp */
        case 1: q[i] = (0.7+0.5*cos(3*t+0.3))*cexp(_Complex_I*(0.4+t*t)); break;       /* not vanishing at the ends */
        case 2: q[i] = ((i*7+3)%5)/(2.0+s) - 0.3 + _Complex_I*(((i*5+1)%7)/8.0-0.4); break; /* rough */
        default: q[i] = i == D/2 ? 1.3/s : 0; break;                                   /* a single spike */
        }
    }
}
#endif
