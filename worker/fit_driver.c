/* Runs the C bath fit of edpyt_backend under AddressSanitizer/UBSan.
   Requests on fd 0, answers on fd 3 (fd 1 belongs to the code under test).
   Request: int32 op, nbath, nmats; double beta; double x[2*nbath]; double vals[2*nmats]
     op 0 evaluate, 1 fit, 2 initial bath
   Every array has exactly its size, so any access beyond it is reported. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include <math.h>
#include <complex.h>
#include <string.h>

extern int nbath, nmats;
extern double beta;
extern double complex *vals_true, *delta, *z;
extern double complex **ddelta;
void init_bath(double x[]);
void eval_delta(double x[]);
void eval_ddelta(double x[]);
double eval_chi2(double x[]);
void eval_dchi2(double x[], double dx[]);
void fit(double x[], int *iter, double *fret, int nb, int nm, double complex *v, double b);

size_t __sanitizer_get_current_allocated_bytes(void);

static int get(void *p, size_t n) {
    char *c = p;
    while (n) {
        ssize_t k = read(0, c, n);
        if (k <= 0) return 0;
        c += k; n -= k;
    }
    return 1;
}
static void put(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        ssize_t k = write(3, c, n);
        if (k <= 0) _exit(9);
        c += k; n -= k;
    }
}

int main(void) {
    static char sink[4096];
    setvbuf(stdout, sink, _IOFBF, sizeof sink);   /* stdio must not allocate later on */
    for (;;) {
        int32_t h[3];
        double b;
        if (!get(h, sizeof h) || !get(&b, sizeof b)) return 0;
        int op = h[0], nb = h[1], nm = h[2], n = 2 * nb;
        double *x = malloc(n * sizeof *x);
        double complex *v = malloc(nm * sizeof *v), *v0 = malloc(nm * sizeof *v);
        if (!get(x, n * sizeof *x) || !get(v, nm * sizeof *v)) return 8;
        memcpy(v0, v, nm * sizeof *v);
        if (op == 0) {
            double *dx = malloc(n * sizeof *dx), chi2;
            nbath = nb; nmats = nm; beta = b; vals_true = v;
            z = malloc(nm * sizeof *z);
            delta = malloc(nm * sizeof *delta);
            ddelta = malloc(nm * sizeof *ddelta);
            for (int i = 0; i < nm; i++) {
                ddelta[i] = malloc(n * sizeof **ddelta);
                z[i] = (2 * i + 1) * M_PI / b * I;
            }
            size_t m0 = __sanitizer_get_current_allocated_bytes();
            eval_delta(x);
            put(delta, nm * sizeof *delta);
            eval_ddelta(x);
            for (int i = 0; i < nm; i++) put(ddelta[i], n * sizeof **ddelta);
            for (int i = 0; i < nm; i++) delta[i] = NAN;
            chi2 = eval_chi2(x);
            put(&chi2, sizeof chi2);
            for (int i = 0; i < nm; i++) {
                delta[i] = NAN;
                for (int k = 0; k < n; k++) ddelta[i][k] = NAN;
            }
            for (int k = 0; k < n; k++) dx[k] = NAN;
            eval_dchi2(x, dx);
            put(dx, n * sizeof *dx);
            int64_t leak = (int64_t)__sanitizer_get_current_allocated_bytes() - (int64_t)m0;
            put(&leak, sizeof leak);
            for (int i = 0; i < nm; i++) free(ddelta[i]);
            free(ddelta); free(delta); free(z); free(dx);
        } else if (op == 1) {
            int *it = malloc(sizeof *it);
            double *fret = malloc(sizeof *fret);
            *it = -12345; *fret = NAN;
            size_t m0 = __sanitizer_get_current_allocated_bytes();
            fit(x, it, fret, nb, nm, v, b);
            int64_t leak = (int64_t)__sanitizer_get_current_allocated_bytes() - (int64_t)m0, iter = *it;
            put(&leak, sizeof leak);
            put(&iter, sizeof iter);
            put(fret, sizeof *fret);
            free(it); free(fret);
        } else {
            nbath = nb;
            init_bath(x);
        }
        put(x, n * sizeof *x);
        int64_t same = memcmp(v, v0, nm * sizeof *v) == 0;
        put(&same, sizeof same);
        free(x); free(v); free(v0);
    }
}
