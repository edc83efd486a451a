/* grid sorting: every known point gets the nearest target of its projection, if one is near enough (VG_PEEL 8, VG_SPLIT) */
#include "vg.h"
#include <stdlib.h>
#include "sortgrid.h"
#include "imgcoord.h"
#include "trafo.h"
double vg_img(int what, double x, double y, double z, double cc, double n) __attribute__((const));
double vg_pix(int what, double x, double y, double n) __attribute__((const));
void img_coord(vec3d pos, Calibration *c, mm_np *mm, double *x, double *y) { double p = pos[0], q = pos[1], r = pos[2]; *x = vg_img(0, p, q, r, c->int_par.cc, mm->n1); *y = vg_img(1, p, q, r, c->int_par.cc, mm->n1); }
void metric_to_pixel(double *px, double *py, double x, double y, control_par *c) { double p = x, q = y; *px = vg_pix(0, p, q, c->pix_x); *py = vg_pix(1, p, q, c->pix_x); }
/* the nearest of up to three targets in the square around the point; the first of those equally near */
static inline void nearest(double x, double y, double eps, const double *q, int num, int *truth) {
    target t[3]; int i, j, in[3], r; double d[3];
    for (i = 0; i < num; i++) { t[i].x = q[2*i]; t[i].y = q[2*i + 1]; in[i] = t[i].x > x - eps && t[i].x < x + eps && t[i].y > y - eps && t[i].y < y + eps; d[i] = sqrt((x - t[i].x)*(x - t[i].x) + (y - t[i].y)*(y - t[i].y)); }
    r = nearest_neighbour_pix(t, num, x, y, eps);
    truth[0] = r == -999 || (r >= 0 && r < num);
    for (i = 0; i < num; i++) {
        int best = in[i];
        for (j = 0; j < num; j++) if (in[j] && (j < i ? d[j] <= d[i] : d[j] < d[i])) best = 0;
        truth[1 + i] = (r == i) == best;
    }
}
void W_near_0(double x, double y, double eps, int *R truth) { truth[0] = nearest_neighbour_pix(0, 0, x, y, eps) == -999; }
void W_near_1(double x, double y, double eps, const double *R q, int *R truth, int *R need) { need[0] = sqrt((x - q[0])*(x - q[0]) + (y - q[1])*(y - q[1])) < 1e20; nearest(x, y, eps, q, 1, truth); }
void W_near_2(double x, double y, double eps, const double *R q, int *R truth, int *R need) {
    int i; for (i = 0; i < 2; i++) need[i] = sqrt((x - q[2*i])*(x - q[2*i]) + (y - q[2*i+1])*(y - q[2*i+1])) < 1e20;
    nearest(x, y, eps, q, 2, truth);
}
/* numbers given: the nearest of many, wherever it stands in the list */
static inline int pick(int a, int b, int c, int d, double x, double eps) {
    target t[4]; int i, p[4]; p[0] = a; p[1] = b; p[2] = c; p[3] = d;
    for (i = 0; i < 4; i++) { t[i].x = p[i] % 100; t[i].y = p[i] / 100; }
    return nearest_neighbour_pix(t, 4, x, 50, eps);
}
void W_pick(int *R truth) {
    truth[0] = pick(5050, 5049, 5053, 5048, 50, 10) == 0; truth[1] = pick(5060, 5049, 5053, 5048, 50, 10) == 1; truth[2] = pick(5060, 5054, 4952, 5047, 50, 10) == 2;
    truth[3] = pick(5060, 5044, 4955, 5047, 50, 10) == 3; truth[4] = pick(5060, 5040, 4050, 6050, 50, 10) == -999; truth[5] = pick(5060, 5040, 4050, 6050, 50, 11) == 0;
    truth[6] = pick(5154, 5750, 5748, 5250, 50, 10) == 3; truth[7] = pick(4949, 5151, 5149, 4951, 50, 2) == 0; truth[8] = pick(4843, 4850, 5243, 4950, 50, 5) == 3;
}
typedef struct { Calibration cal; control_par cp; mm_np mm; vec3d fix[3]; target t[3]; } scene;
#define SAME(a, b) ((a).n == (b).n && (a).nx == (b).nx && (a).ny == (b).ny && (a).sumg == (b).sumg && (a).tnr == (b).tnr)
/* three known points, three targets: what is given for a point is the whole target nearest to it, by the number of the point */
void W_grid(const double *R f, const double *R p, const int *R q, int imx, int imy, int eps, int *R truth, double *R zero, int *R need) {
    scene s; target *o; int i, j, n = 0, m = 0, k; double x, y;
    s.cp.mm = &s.mm; s.mm.n1 = p[0]; s.cp.pix_x = p[1]; s.cal.int_par.cc = p[2]; s.cp.imx = imx; s.cp.imy = imy;
    for (i = 0; i < 2; i++) { for (j = 0; j < 3; j++) s.fix[i][j] = f[3*i + j]; }
    for (i = 0; i < 2; i++) { s.t[i].x = p[3 + 2*i]; s.t[i].y = p[4 + 2*i]; s.t[i].pnr = q[6*i]; s.t[i].n = q[6*i + 1]; s.t[i].nx = q[6*i + 2]; s.t[i].ny = q[6*i + 3]; s.t[i].sumg = q[6*i + 4]; s.t[i].tnr = q[6*i + 5]; }
    o = sortgrid(&s.cal, &s.cp, 2, s.fix, 2, eps, s.t);
    for (i = 0; i < 2; i++) {
        double a = vg_img(0, f[3*i], f[3*i + 1], f[3*i + 2], p[2], p[0]), b = vg_img(1, f[3*i], f[3*i + 1], f[3*i + 2], p[2], p[0]);
        x = vg_pix(0, a, b, p[1]); y = vg_pix(1, a, b, p[1]);
        k = -999;
        if (x > -eps && y > -eps && x < imx + eps && y < imy + eps) k = nearest_neighbour_pix(s.t, 2, x, y, eps);
        truth[n++] = o[i].pnr == (k == -999 ? -999 : i);
        truth[n++] = k != 0 || SAME(o[i], s.t[0]); truth[n++] = k != 1 || SAME(o[i], s.t[1]);
        zero[m++] = k == -999 ? 0 : k == 0 ? o[i].x - p[3] : o[i].x - p[5]; zero[m++] = k == -999 ? 0 : k == 0 ? o[i].y - p[4] : o[i].y - p[6];
    }
}
