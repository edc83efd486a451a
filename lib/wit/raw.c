/* first orientation of a camera by hand, and the dumbbell measure (VG_PEEL 3, VG_SPLIT) */
#include "vg.h"
#include <stdlib.h>
#include "orientation.h"
#include "lsqadj.h"
double vg_img(int what, double x, double y, double z, double a, double b, double c, double rot, double cc, double g, double n) __attribute__((const));
double vg_rot(double o, double p, double k) __attribute__((const));
double vg_pix(int what, double x, double y, double n) __attribute__((const));
double vg_pos(int what, double a, double b, double c, double d, int num, double n, double c0, double c1) __attribute__((const));
void rotation_matrix(Exterior *e) { e->dm[0][0] = vg_rot(e->omega, e->phi, e->kappa); }
void img_coord(vec3d pos, Calibration *c, mm_np *mm, double *x, double *y) {
    double p = pos[0], q = pos[1], r = pos[2];
    *x = vg_img(0, p, q, r, c->ext_par.x0, c->ext_par.y0, c->ext_par.z0, c->ext_par.dm[0][0], c->int_par.cc, c->glass_par.vec_x, mm->n1);
    *y = vg_img(1, p, q, r, c->ext_par.x0, c->ext_par.y0, c->ext_par.z0, c->ext_par.dm[0][0], c->int_par.cc, c->glass_par.vec_x, mm->n1);
}
void pixel_to_metric(double *x, double *y, double px, double py, control_par *c) { *x = vg_pix(0, px, py, c->pix_x); *y = vg_pix(1, px, py, c->pix_x); }
double point_position(vec2d t[], int n, mm_np *mm, Calibration *c[], vec3d res) {
    double a = t[0][0], b = t[0][1], d = t[1][0], e = t[1][1]; int i;
    for (i = 0; i < 3; i++) res[i] = vg_pos(i, a, b, d, e, n, mm->n1, c[0]->int_par.cc, c[1]->int_par.cc);
    return vg_pos(3, a, b, d, e, n, mm->n1, c[0]->int_par.cc, c[1]->int_par.cc);
}
static double gX[10][6], gl[10], beta1[6], beta2[6];
static int gm, bad, rounds, solved;
void ata(double *a, double *o, int m, int n, int w) {
    int i, j;
    if (n != 6 || w != 6) bad++;
    gm = m; solved = 0; rounds++;
    for (i = 0; i < m; i++) for (j = 0; j < 6; j++) gX[i][j] = a[i*6 + j];
}
void matinv(double *a, int n, int w) { if (n != 6 || w != 6) bad++; solved++; }
void atl(double *u, double *a, double *l, int m, int n, int w) { int i; if (m != gm || n != 6 || w != 6) bad++; for (i = 0; i < m; i++) gl[i] = l[i]; solved++; }
void matmul(double *a, double *b, double *c, int m, int n, int k, int ml, int nl) {
    int i;
    if (solved != 2 || m != 6 || n != 6 || k != 1 || ml != 6 || nl != 6) bad++;
    for (i = 0; i < 6; i++) a[i] = rounds == 1 ? beta1[i] : beta2[i];
}
typedef struct { Calibration cal; control_par cp; mm_np mm; vec3d fix[6]; target pix[6]; } scene;
#define EXT(c) (c).ext_par.x0, (c).ext_par.y0, (c).ext_par.z0, vg_rot((c).ext_par.omega, (c).ext_par.phi, (c).ext_par.kappa)
#define IMG(k, f, c, n1) vg_img(k, (f)[0], (f)[1], (f)[2], EXT(c), (c).int_par.cc, (c).glass_par.vec_x, n1)
static inline void begin(scene *s, const Calibration *c, const double *f, const double *p, int n, double big) {
    int i;
    s->cal = *c; s->cp.mm = &s->mm; s->mm.n1 = p[0]; s->cp.pix_x = p[1];
    for (i = 0; i < n; i++) { s->fix[i][0] = f[3*i]; s->fix[i][1] = f[3*i + 1]; s->fix[i][2] = f[3*i + 2]; s->pix[i].x = p[2 + 2*i]; s->pix[i].y = p[3 + 2*i]; s->pix[i].pnr = -999; }
    for (i = 0; i < 6; i++) { beta1[i] = (i + 1)*big; beta2[i] = (6 - i)/64.; }
    bad = rounds = solved = 0;
}
/* what it leaves: the exterior orientation moved by every solution, no distortion, all else as before */
static inline void left(scene *s, const Calibration *c, double *zero, int n, int two) {
    const double *u, *w; int i;
    u = &s->cal.ext_par.x0; w = &c->ext_par.x0; for (i = 0; i < 6; i++) zero[n++] = u[i] - w[i] - beta1[i] - (two ? beta2[i] : 0);
    zero[n++] = s->cal.ext_par.dm[0][0] - vg_rot(s->cal.ext_par.omega, s->cal.ext_par.phi, s->cal.ext_par.kappa);
    u = &s->cal.int_par.xh; w = &c->int_par.xh; for (i = 0; i < 6; i++) zero[n++] = u[i] - w[i];
    u = &s->cal.added_par.k1; for (i = 0; i < 7; i++) zero[n++] = u[i] - (i == 5 ? 1 : 0);
}
#define RARGS const Calibration *R c, const double *R f, const double *R p, double *R zero, int *R truth
void W_raw(RARGS) {
    scene s; int i, j, n = 0; Calibration d; double *v;
    begin(&s, c, f, p, 4, 1/64.);
    truth[0] = raw_orient(&s.cal, &s.cp, 4, s.fix, s.pix) == 1 && bad == 0 && rounds == 1; truth[1] = gm == 8;
    left(&s, c, zero, 0, 0); n = 20;
    for (j = 0; j < 4; j++) {
        zero[n++] = gl[2*j] - (vg_pix(0, p[2 + 2*j], p[3 + 2*j], p[1]) - IMG(0, f + 3*j, *c, p[0]));
        zero[n++] = gl[2*j + 1] - (vg_pix(1, p[2 + 2*j], p[3 + 2*j], p[1]) - IMG(1, f + 3*j, *c, p[0]));
        for (i = 0; i < 6; i++) {
            d = *c; v = i == 0 ? &d.ext_par.x0 : i == 1 ? &d.ext_par.y0 : i == 2 ? &d.ext_par.z0 : i == 3 ? &d.ext_par.omega : i == 4 ? &d.ext_par.phi : &d.ext_par.kappa;
            *v += 0.0001;
            zero[n++] = gX[2*j][i] - (IMG(0, f + 3*j, d, p[0]) - IMG(0, f + 3*j, *c, p[0]))/0.0001;
            zero[n++] = gX[2*j + 1][i] - (IMG(1, f + 3*j, d, p[0]) - IMG(1, f + 3*j, *c, p[0]))/0.0001;
        }
    }
}
/* a large solution is followed by another round, from its result */
void W_raw_second(RARGS) {
    scene s; int n = 20; Calibration d; double *v; int i;
    begin(&s, c, f, p, 4, 1/32.); d = *c; v = &d.ext_par.x0; for (i = 0; i < 6; i++) v[i] += beta1[i];
    truth[0] = raw_orient(&s.cal, &s.cp, 4, s.fix, s.pix) == 1 && bad == 0 && rounds == 2;
    left(&s, c, zero, 0, 1);
    for (i = 0; i < 4; i++) { zero[n++] = gl[2*i] - (vg_pix(0, p[2 + 2*i], p[3 + 2*i], p[1]) - IMG(0, f + 3*i, d, p[0])); zero[n++] = gl[2*i + 1] - (vg_pix(1, p[2 + 2*i], p[3 + 2*i], p[1]) - IMG(1, f + 3*i, d, p[0])); }
}
/* every component of the solution is looked at, of either sign */
static inline void stop(const Calibration *c, const double *f, const double *p, int *truth, int k, double v) {
    scene s;
    begin(&s, c, f, p, 4, 1/1024.); beta1[k] = v;
    truth[0] = raw_orient(&s.cal, &s.cp, 4, s.fix, s.pix) == 1 && rounds == 2;
}
#define SARGS const Calibration *R c, const double *R f, const double *R p, int *R truth
void W_stop_0(SARGS) { stop(c, f, p, truth, 0, 0.11); }
void W_stop_2(SARGS) { stop(c, f, p, truth, 2, -0.11); }
void W_stop_3(SARGS) { stop(c, f, p, truth, 3, -0.11); }
void W_stop_5(SARGS) { stop(c, f, p, truth, 5, 0.11); }
/* five points at most have room */
void W_raw_five(RARGS) { scene s; begin(&s, c, f, p, 5, 1/64.); truth[0] = raw_orient(&s.cal, &s.cp, 5, s.fix, s.pix) == 1 && bad == 0 && gm == 10; left(&s, c, zero, 0, 0); }
void W_raw_six(const Calibration *R c, const double *R f, const double *R p, double *R zero, int *R truth) {
    scene s; const double *u, *w; int i;
    begin(&s, c, f, p, 6, 1/64.); truth[0] = raw_orient(&s.cal, &s.cp, 6, s.fix, s.pix) == 0 && rounds == 0;
    u = &s.cal.ext_par.x0; w = &c->ext_par.x0; for (i = 0; i < 6; i++) zero[i] = u[i] - w[i];
}
/* dumbbells: mean ray distance plus the weighted mean deviation of the length from the one known, larger or smaller */
#define POS(k, t, n, c) vg_pos(k, (t)[0], (t)[1], (t)[2], (t)[3], 2, n, (c)[0].int_par.cc, (c)[1].int_par.cc)
static inline double miss(const double *t, double n1, const Calibration *c, int len) {
    double d[3], l; int k;
    for (k = 0; k < 3; k++) d[k] = POS(k, t, n1, c) - POS(k, t + 4, n1, c);
    l = sqrt(N3(d));
    return l > len ? 1 - len/l : 1 - l/len;
}
void W_dumbbell(const Calibration *R c, const double *R t, int len, double weight, double n1, double *R zero, int *R need) {
    vec2d b[4][2], *tt[4]; Calibration cal[2], *cp[2]; mm_np mm; int i, j; double a;
    need[0] = len > 0;
    cal[0] = c[0]; cal[1] = c[1]; cp[0] = cal; cp[1] = cal + 1; mm.n1 = n1;
    for (i = 0; i < 4; i++) { tt[i] = b[i]; for (j = 0; j < 4; j++) b[i][j/2][j%2] = t[4*i + j]; }
    a = weighted_dumbbell_precision(tt, 4, 2, &mm, cp, len, weight);
    zero[0] = a - (POS(3, t, n1, c) + POS(3, t + 4, n1, c) + POS(3, t + 8, n1, c) + POS(3, t + 12, n1, c))/4 - weight*(miss(t, n1, c, len) + miss(t + 8, n1, c, len))/2;
}
