/* candidates along an epipolar line: exactly the targets near it, on the sensor, and similar enough, with their distance and score (VG_PEEL 40) */
#include "vg.h"
#include <stdlib.h>
#include "epi.h"
#include "trafo.h"
int printf(const char *f, ...) { return 0; }
double vg_und(int what, double x, double y, double k) __attribute__((const));
void correct_brown_affin(double x, double y, ap_52 ap, double *x1, double *y1) { double a = x, b = y; *x1 = vg_und(0, a, b, ap.k1); *y1 = vg_und(1, a, b, ap.k1); }
typedef struct { coord_2d c[4]; target p[4]; candidate o[4]; volume_par v; control_par cp; Calibration cal; } scene;
static inline void wide(scene *s) { /* nothing is off the sensor and every target is similar enough */
    s->cp.pix_x = s->cp.pix_y = 1; s->cp.imx = s->cp.imy = 2000; s->cal.int_par.xh = s->cal.int_par.yh = 0; s->cal.added_par.k1 = 0;
    s->v.cn = s->v.cnx = s->v.cny = s->v.csumg = 0; s->v.eps0 = 1;
}
#define SEEN (vg_und(0, -1000, -1000, 0) < -500 && vg_und(1, -1000, -1000, 0) < -500 && vg_und(0, 1000, 1000, 0) > 500 && vg_und(1, 1000, 1000, 0) > 500)
/* one target anywhere, a line in every direction: the slope is 3/4 or -3/4, given from either end */
static inline void near(double x, double y, double eps, int *truth, int *need, double *zero, double xa, double ya, double xb, double yb, double m) {
    scene s; int n, k; double d = fabs((y - m*x - (ya - m*xa))/1.25);
    wide(&s); s.v.eps0 = eps; need[0] = eps > 0; need[1] = SEEN;
    s.c[0].x = x; s.c[0].y = y; s.c[0].pnr = 0; s.p[0].n = s.p[0].nx = s.p[0].ny = s.p[0].sumg = 3; s.o[0].tol = -1;
    n = find_candidate(s.c, s.p, 1, xa, ya, xb, yb, 3, 3, 3, 3, s.o, &s.v, &s.cp, &s.cal);
    k = x > (xa < xb ? xa : xb) - eps && x < (xa < xb ? xb : xa) + eps && y > (ya < yb ? ya : yb) - eps && y < (ya < yb ? yb : ya) + eps && d < eps;
    truth[0] = n == k; truth[1] = n != 1 || s.o[0].pnr == 0;
    zero[0] = n == 1 ? s.o[0].tol - d : 0; zero[1] = n == 1 ? s.o[0].corr - 8*6 : 0;
}
#define NARGS double x, double y, double eps, int *R truth, int *R need, double *R zero
void W_near_ru(NARGS) { near(x, y, eps, truth, need, zero, 0, 0, 8, 6, 0.75); }
void W_near_rd(NARGS) { near(x, y, eps, truth, need, zero, 0, 6, 8, 0, -0.75); }
void W_near_lu(NARGS) { near(x, y, eps, truth, need, zero, 8, 0, 0, 6, -0.75); }
void W_near_ld(NARGS) { near(x, y, eps, truth, need, zero, 8, 6, 0, 0, 0.75); }
/* a line that does not reach the sensor has no candidates, and that is told */
void W_sensor(double xa, double ya, double xb, double yb, double px, double py, double xh, double yh, int imx, int imy, double k1, int *R truth, int *R need) {
    scene s; int n; double x0, y0, x1, y1, a, b;
    wide(&s); s.cp.pix_x = px; s.cp.pix_y = py; s.cp.imx = imx; s.cp.imy = imy; s.cal.int_par.xh = xh; s.cal.int_par.yh = yh; s.cal.added_par.k1 = k1;
    need[0] = xa < xb && ya < yb;
    n = find_candidate(s.c, s.p, 0, xa, ya, xb, yb, 3, 3, 3, 3, s.o, &s.v, &s.cp, &s.cal);
    a = -px*imx/2 - xh; b = -py*imy/2 - yh; x0 = vg_und(0, a, b, k1); y0 = vg_und(1, a, b, k1);
    a = px*imx/2 - xh; b = py*imy/2 - yh; x1 = vg_und(0, a, b, k1); y1 = vg_und(1, a, b, k1);
    truth[0] = n == (xb > x0 && xa < x1 && yb > y0 && ya < y1 ? 0 : -1);
}
void W_sensor_back(double xa, double ya, double xb, double yb, int *R truth, int *R need) {
    scene s; int n;
    wide(&s);
    need[0] = xa > xb && ya > yb;
    n = find_candidate(s.c, s.p, 0, xa, ya, xb, yb, 3, 3, 3, 3, s.o, &s.v, &s.cp, &s.cal);
    truth[0] = n == (xa > vg_und(0, -1000, -1000, 0) && xb < vg_und(0, 1000, 1000, 0) && ya > vg_und(1, -1000, -1000, 0) && yb < vg_und(1, 1000, 1000, 0) ? 0 : -1);
}
/* similarity: each ratio at least its limit, that of the grey values above it; the score weighs them 4, 2, 1, 1 and by the grey values */
#define A4(a, b, c, d) a, b, c, d
#define GATE(N, F, L, STRICT) \
    scene s; int n; double q = (double)(a < b ? a : b)/(a < b ? b : a); \
    wide(&s); s.v.L = lim; need[0] = a > 0 && b > 0; need[1] = SEEN; need[2] = lim > 0; \
    s.c[0].x = 4; s.c[0].y = 3; s.c[0].pnr = 0; s.p[0].n = s.p[0].nx = s.p[0].ny = s.p[0].sumg = 3; s.p[0].F = b; \
    n = find_candidate(s.c, s.p, 1, 0, 0, 8, 6, N, s.o, &s.v, &s.cp, &s.cal); \
    truth[0] = n == (STRICT ? q > lim : q >= lim); zero[1] = n == 1 ? s.o[0].tol : 0;
#define GARGS int a, int b, double lim, int *R truth, int *R need, double *R zero
void W_gate_n(GARGS) { GATE(A4(a, 3, 3, 3), n, cn, 0) zero[0] = n == 1 ? s.o[0].corr - (6 + 2*q)*6 : 0; }
void W_gate_nx(GARGS) { GATE(A4(3, a, 3, 3), nx, cnx, 0) zero[0] = n == 1 ? s.o[0].corr - (7 + q)*6 : 0; }
void W_gate_ny(GARGS) { GATE(A4(3, 3, a, 3), ny, cny, 0) zero[0] = n == 1 ? s.o[0].corr - (7 + q)*6 : 0; }
void W_gate_sumg(GARGS) { GATE(A4(3, 3, 3, a), sumg, csumg, 1) zero[0] = n == 1 ? s.o[0].corr - (4 + 4*q)*((double)a + b) : 0; }
/* several targets in order of x: each candidate is told by its place, its properties are those of its own target, and those beyond the line end the search */
static inline void several(const int *x, int num, const int *pnr, const int *n, const int *want, int nw, int *truth, int *need) {
    scene s; int i, k = 0;
    wide(&s); s.v.cn = 0.5; need[0] = SEEN;
    for (i = 0; i < 4; i++) { s.c[i].x = x[i]; s.c[i].y = 0.75*x[i]; s.c[i].pnr = pnr[i]; s.p[i].n = n[i]; s.p[i].nx = s.p[i].ny = s.p[i].sumg = 3; s.o[i].pnr = 77; }
    truth[k++] = find_candidate(s.c, s.p, num, 0, 0, 8, 6, 4, 3, 3, 3, s.o, &s.v, &s.cp, &s.cal) == nw;
    for (i = 0; i < nw; i++) truth[k++] = s.o[i].pnr == want[i];
    for (; nw >= 0 && i < 4; i++) truth[k++] = s.o[i].pnr == 77;
}
#define TN int *R truth, int *R need
void W_several_all(TN) { const int x[] = {1, 3, 5, 7}, p[] = {3, 0, 1, 2}, n[] = {4, 4, 4, 4}, w[] = {0, 1, 2, 3}; several(x, 4, p, n, w, 4, truth, need); }
void W_several_gate(TN) { const int x[] = {1, 3, 5, 7}, p[] = {3, 0, 1, 2}, n[] = {4, 1, 4, 9}, w[] = {1, 3}; several(x, 4, p, n, w, 2, truth, need); }
void W_several_beyond(TN) { const int x[] = {-3, 3, 12, 12}, p[] = {3, 0, 1, 2}, n[] = {4, 4, 4, 4}, w[] = {1}; several(x, 4, p, n, w, 1, truth, need); }
void W_several_first(TN) { const int x[] = {1, 3, 5, 7}, p[] = {1, 0, 3, 2}, n[] = {4, 4, 4, 4}, w[] = {0, 1}; several(x, 2, p, n, w, 2, truth, need); }
void W_several_bad(TN) { const int x[] = {1, 3, 5, 7}, p[] = {1, 4, 3, 2}, n[] = {4, 4, 4, 4}, w[] = {0}; several(x, 4, p, n, w, -1, truth, need); }
/* the search starts early enough in a long list, wherever the line is */
static inline void many(int num, int lo, int hi, int *truth, int *need) {
    coord_2d c[100]; target p[100]; candidate o[16]; volume_par v; control_par cp; Calibration cal; int i;
    cp.pix_x = cp.pix_y = 1; cp.imx = cp.imy = 2000; cal.int_par.xh = cal.int_par.yh = 0; cal.added_par.k1 = 0; v.cn = v.cnx = v.cny = v.csumg = 0; v.eps0 = 0.5;
    need[0] = SEEN;
    for (i = 0; i < num; i++) { c[i].x = i; c[i].y = 0.75*i; c[i].pnr = i; p[i].n = p[i].nx = p[i].ny = p[i].sumg = 3; }
    truth[0] = find_candidate(c, p, num, lo, 0.75*lo, hi, 0.75*hi, 3, 3, 3, 3, o, &v, &cp, &cal) == hi - lo + 1;
    for (i = 0; i <= hi - lo; i++) truth[1 + i] = o[i].pnr == lo + i;
}
void W_many_64_0(TN) { many(64, 0, 2, truth, need); }
void W_many_64_20(TN) { many(64, 20, 23, truth, need); }
void W_many_64_40(TN) { many(64, 40, 42, truth, need); }
void W_many_64_60(TN) { many(64, 60, 63, truth, need); }
void W_many_37_1(TN) { many(37, 1, 3, truth, need); }
void W_many_37_30(TN) { many(37, 30, 36, truth, need); }
void W_many_100_10(TN) { many(100, 10, 12, truth, need); }
void W_many_100_48(TN) { many(100, 48, 49, truth, need); }
void W_many_100_77(TN) { many(100, 77, 80, truth, need); }
void W_many_100_95(TN) { many(100, 95, 99, truth, need); }
void W_many_90_50(TN) { many(90, 50, 52, truth, need); }
void W_many_31_14(TN) { many(31, 14, 16, truth, need); }
