/* point_position, dumbbell precision: averages over camera pairs, on top of arbitrary rays and midpoints */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "ray_tracing.h"
#include "orientation.h"
double vg_ray(int what, int i, double x, double y, double id, double n) __attribute__((const));
void ray_tracing(double x, double y, Calibration *cal, mm_np mm, double X[3], double out[3]) {
    int i;
    for (i = 0; i < 3; i++) {
        X[i] = vg_ray(0, i, x, y, cal->int_par.cc, mm.n3);
        out[i] = vg_ray(1, i, x, y, cal->int_par.cc, mm.n3);
    }
}
double vg_skew(int w, double, double, double, double, double, double, double, double, double, double, double, double) __attribute__((const));
double skew_midpoint(vec3d a, vec3d b, vec3d c, vec3d d, vec3d m) {
    int i;
    for (i = 0; i < 3; i++) m[i] = vg_skew(i, a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2], d[0], d[1], d[2]);
    return vg_skew(3, a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2], d[0], d[1], d[2]);
}
static inline void pp(int n, int mask, double *x, double *y, double *cc, double n3, double *R zero) {
    Calibration c[4], *cals[4]; mm_np mm; vec2d t[4]; vec3d res; int i, j, k, np = 0; double d, s[4] = {0, 0, 0, 0};
    for (i = 0; i < n; i++) {
        t[i][0] = mask >> i & 1 ? x[i] : COORD_UNUSED; t[i][1] = y[i];
        c[i].int_par.cc = cc[i]; cals[i] = &c[i];
    }
    mm.n3 = n3;
    d = point_position(t, n, &mm, cals, res);
    for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) if ((mask >> i & 1) && (mask >> j & 1)) {
        np++;
        for (k = 0; k < 4; k++)
#define RAY(w, q, i) vg_ray(w, q, x[i], y[i], cc[i], n3)
            s[k] += vg_skew(k, RAY(0, 0, i), RAY(0, 1, i), RAY(0, 2, i), RAY(1, 0, i), RAY(1, 1, i), RAY(1, 2, i),
                RAY(0, 0, j), RAY(0, 1, j), RAY(0, 2, j), RAY(1, 0, j), RAY(1, 1, j), RAY(1, 2, j));
    }
    for (k = 0; k < 3; k++) zero[k] = res[k]*np - s[k];
    zero[3] = d*np - s[3];
}
#define PPARGS double x0, double x1, double x2, double x3, double y0, double y1, double y2, double y3, double c0, double c1, double c2, double c3, double n3, int *R need, double *R zero
#define PP(n, m) double x[4] = {x0, x1, x2, x3}, y[4] = {y0, y1, y2, y3}, c[4] = {c0, c1, c2, c3}; \
    need[0] = x0 != COORD_UNUSED; need[1] = x1 != COORD_UNUSED; need[2] = x2 != COORD_UNUSED; need[3] = x3 != COORD_UNUSED; pp(n, m, x, y, c, n3, zero);
void W_pp_2(PPARGS) { PP(2, 3) }
void W_pp_3(PPARGS) { PP(3, 7) }
void W_pp_4(PPARGS) { PP(4, 15) }
void W_pp_4_no0(PPARGS) { PP(4, 14) }
void W_pp_4_no1(PPARGS) { PP(4, 13) }
void W_pp_4_no3(PPARGS) { PP(4, 7) }
void W_pp_4_only03(PPARGS) { PP(4, 9) }
void W_pp_3_no2(PPARGS) { PP(3, 3) }
