/* Stands in for libgfortran's random numbers when the real package is replayed (LD_PRELOAD). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

typedef struct { ptrdiff_t stride, lb, ub; } dim_t;
typedef struct { void *base; size_t offset; size_t elem_len; int version; signed char rank, type; signed short attr;
                 ptrdiff_t span; dim_t dim[15]; } desc_t;

#define MS 64
#define MK 512
static double tab[MS][MK];
static int enabled, seeds[MS][8], nseed, cur, pos, nlog, logv[1024];

void vp_rnd_reset(int on) { enabled = on; nseed = cur = pos = nlog = 0; memset(tab, 0, sizeof tab); }
void vp_rnd_set(int s, int k, double v) { if (s < MS && k < MK) tab[s][k] = v; }
int vp_rnd_log(int *out, int n) { int m = nlog < n ? nlog : n; memcpy(out, logv, m * sizeof(int)); return nlog; }

static double draw(void)
{
    double v = tab[cur < MS ? cur : MS - 1][pos < MK ? pos : MK - 1];
    pos++;
    return v;
}

void _gfortran_random_r8(double *x)
{
    static void (*real)(double *);
    if (enabled) { *x = draw(); return; }
    if (!real) real = (void (*)(double *))dlsym(RTLD_NEXT, "_gfortran_random_r8");
    real(x);
}

void _gfortran_arandom_r8(desc_t *d)
{
    static void (*real)(desc_t *);
    if (enabled && d->rank == 1) {
        double *b = d->base;
        for (ptrdiff_t i = 0; i <= d->dim[0].ub - d->dim[0].lb; i++) b[i * d->dim[0].stride] = draw();
        return;
    }
    if (!real) real = (void (*)(desc_t *))dlsym(RTLD_NEXT, "_gfortran_arandom_r8");
    real(d);
}

void _gfortran_random_seed_i4(int *size, desc_t *put, desc_t *get)
{
    static void (*real)(int *, desc_t *, desc_t *);
    if (enabled && !get) {
        if (size) *size = 8;
        if (put) {
            int s[8] = {0};
            ptrdiff_t n = put->dim[0].ub - put->dim[0].lb + 1;
            int *b = put->base;
            for (ptrdiff_t i = 0; i < n && i < 8; i++) s[i] = b[i * put->dim[0].stride];
            int j;
            for (j = 0; j < nseed; j++) if (!memcmp(seeds[j], s, sizeof s)) break;
            if (j == nseed && nseed < MS) { memcpy(seeds[nseed], s, sizeof s); nseed++; }
            cur = j; pos = 0;
            if (nlog < 1024) logv[nlog++] = j;
        }
        return;
    }
    if (!real) real = (void (*)(int *, desc_t *, desc_t *))dlsym(RTLD_NEXT, "_gfortran_random_seed_i4");
    real(size, put, get);
}
