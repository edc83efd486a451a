/* camera orientation: the equations that are set up, and what is done with their solution (VG_PEEL 3, VG_SPLIT) */
#include "vg.h"
#include <stdlib.h>
#include "orientation.h"
#include "lsqadj.h"
double vg_img(int what, double x, double y, double z, double a, double b, double c, double rot, double cc, double g1, double g2, double g3, double n) __attribute__((const));
double vg_rot(double o, double p, double k) __attribute__((const));
double vg_und(int what, double x, double y, double k1, double k2, double k3, double p1, double p2, double scx, double she) __attribute__((const));
double vg_pix(int what, double x, double y, double n) __attribute__((const));
double vg_xb(int k) __attribute__((const));
double vg_inv(int k) __attribute__((const));
void rotation_matrix(Exterior *e) { e->dm[0][0] = vg_rot(e->omega, e->phi, e->kappa); }
void img_coord(vec3d pos, Calibration *c, mm_np *mm, double *x, double *y) {
    double p = pos[0], q = pos[1], r = pos[2];
    *x = vg_img(0, p, q, r, c->ext_par.x0, c->ext_par.y0, c->ext_par.z0, c->ext_par.dm[0][0], c->int_par.cc, c->glass_par.vec_x, c->glass_par.vec_y, c->glass_par.vec_z, mm->n1);
    *y = vg_img(1, p, q, r, c->ext_par.x0, c->ext_par.y0, c->ext_par.z0, c->ext_par.dm[0][0], c->int_par.cc, c->glass_par.vec_x, c->glass_par.vec_y, c->glass_par.vec_z, mm->n1);
}
void pixel_to_metric(double *x, double *y, double px, double py, control_par *c) { *x = vg_pix(0, px, py, c->pix_x); *y = vg_pix(1, px, py, c->pix_x); }
void correct_brown_affin(double x, double y, ap_52 a, double *u, double *v) { double p = x, q = y; *u = vg_und(0, p, q, a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she); *v = vg_und(1, p, q, a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she); }
/* the equations handed to the adjustment are noted, and its solution is given: first[] in the first round, last[] in the second */
static double gX[24][NPAR], gl[24], first[NPAR], last[NPAR];
static int gm, gn, bad, rounds, two, want, width, solved;
void ata(double *a, double *o, int m, int n, int w) {
    int i, j;
    gm = m; gn = n; width = w; solved = 0;
    for (i = 0; i < want; i++) for (j = 0; j < w; j++) gX[i][j] = a[i*w + j];
    rounds++;
}
void matinv(double *a, int n, int w) { int i; if (n != gn || w != width) bad++; for (i = 0; i < n; i++) a[i*w + i] = vg_inv(i); solved = 1; }
void atl(double *u, double *a, double *l, int m, int n, int w) {
    int i;
    if (m != gm || n != gn || w != width) bad++;
    for (i = 0; i < want; i++) gl[i] = l[i];
}
void matmul(double *a, double *b, double *c, int m, int n, int k, int ml, int nl) {
    int i;
    if (solved == 1) {      /* the solution of the normal equations */
        if (m != gn || n != gn || k != 1 || ml != width || nl != width) bad++;
        for (i = 0; i < gn; i++) a[i] = two && rounds == 1 ? first[i] : last[i];
        solved = 2;
    } else {
        if (m != gm || n != gn || k != 1 || ml != gm || nl != width) bad++;
        for (i = 0; i < want; i++) a[i] = vg_xb(i);
    }
}
typedef struct { Calibration cal; control_par cp; mm_np mm; vec3d fix[7]; target pix[7]; orient_par fl; double sig[20]; } scene;
static inline void begin(scene *s, const Calibration *c, const double *f, const double *p, int n, int flags) {
    int i; unsigned *q = &s->fl.useflag;
    s->cal = *c; s->cp.mm = &s->mm; s->mm.n1 = p[0]; s->cp.pix_x = p[1];
    for (i = 0; i < n; i++) { s->fix[i][0] = f[3*i]; s->fix[i][1] = f[3*i + 1]; s->fix[i][2] = f[3*i + 2]; s->pix[i].x = p[2 + 2*i]; s->pix[i].y = p[3 + 2*i]; s->pix[i].pnr = i; }
    for (i = 0; i < 12; i++) q[i] = flags >> i & 1;
    for (i = 0; i < NPAR; i++) { last[i] = (i + 1)/16777216.; first[i] = i + 1; }
    bad = rounds = two = solved = 0; want = 2*n + IDT;
}
#define EXT(c) (c).ext_par.x0, (c).ext_par.y0, (c).ext_par.z0, vg_rot((c).ext_par.omega, (c).ext_par.phi, (c).ext_par.kappa)
#define IMG(k, f, c, n1) vg_img(k, (f)[0], (f)[1], (f)[2], EXT(c), (c).int_par.cc, (c).glass_par.vec_x, (c).glass_par.vec_y, (c).glass_par.vec_z, n1)
#define OARGS const Calibration *R c, const double *R f, const double *R p, double *R zero, int *R truth
/* derivatives over the exterior orientation: each over its own parameter, and nothing is left changed */
void W_deriv(const Calibration *R c, const double *R f, const double *R p, double dpos, double dang, int *R need, double *R zero) {
    scene s; double x[6], y[6], *v; int i, n = 0; Calibration d; const double *u, *w;
    begin(&s, c, f, p, 1, 0); need[0] = dpos > 0; need[1] = dang > 0;
    num_deriv_exterior(&s.cal, &s.cp, dpos, dang, s.fix[0], x, y);
    for (i = 0; i < 6; i++) {
        d = *c; v = i == 0 ? &d.ext_par.x0 : i == 1 ? &d.ext_par.y0 : i == 2 ? &d.ext_par.z0 : i == 3 ? &d.ext_par.omega : i == 4 ? &d.ext_par.phi : &d.ext_par.kappa;
        *v += i > 2 ? dang : dpos;
        zero[n++] = x[i] - (IMG(0, f, d, p[0]) - IMG(0, f, *c, p[0]))/(i > 2 ? dang : dpos);
        zero[n++] = y[i] - (IMG(1, f, d, p[0]) - IMG(1, f, *c, p[0]))/(i > 2 ? dang : dpos);
    }
    u = &s.cal.ext_par.x0; w = &c->ext_par.x0; for (i = 0; i < 6; i++) zero[n++] = u[i] - w[i];
    zero[n++] = s.cal.ext_par.dm[0][0] - vg_rot(c->ext_par.omega, c->ext_par.phi, c->ext_par.kappa);
    u = &s.cal.int_par.xh; w = &c->int_par.xh; for (i = 0; i < 13; i++) zero[n++] = u[i] - w[i];
}
/* one point: the equations of its two coordinates */
void W_point(OARGS) {
    scene s; double *r; int n = 0, i; double x, y, q, xc, yc, st = 0.00001, sa = 0.0000001; Calibration d; double *v;
    begin(&s, c, f, p, 1, 07776); s.cal.added_par.she = 0;
    r = orient(&s.cal, &s.cp, 1, s.fix, s.pix, &s.fl, s.sig);
    truth[0] = bad == 0 && rounds == 1 && r != 0; truth[1] = gm == 2 + IDT && gn == 18 && width == NPAR;
    d = *c; d.added_par.she = 0;
    x = IMG(0, f, d, p[0]); y = IMG(1, f, d, p[0]); q = x*x + y*y;
    xc = vg_pix(0, p[2], p[3], p[1]); yc = vg_pix(1, p[2], p[3], p[1]);
    zero[n++] = gl[0] - (vg_und(0, xc, yc, c->added_par.k1, c->added_par.k2, c->added_par.k3, c->added_par.p1, c->added_par.p2, c->added_par.scx, 0) - x);
    zero[n++] = gl[1] - (vg_und(1, xc, yc, c->added_par.k1, c->added_par.k2, c->added_par.k3, c->added_par.p1, c->added_par.p2, c->added_par.scx, 0) - y);
    for (i = 0; i < 7; i++) {
        d = *c; v = i == 0 ? &d.ext_par.x0 : i == 1 ? &d.ext_par.y0 : i == 2 ? &d.ext_par.z0 : i == 3 ? &d.ext_par.omega : i == 4 ? &d.ext_par.phi : i == 5 ? &d.ext_par.kappa : &d.int_par.cc;
        *v += i > 2 && i < 6 ? sa : st;
        zero[n++] = gX[0][i] - (IMG(0, f, d, p[0]) - x)/(i > 2 && i < 6 ? sa : st);
        zero[n++] = gX[1][i] - (IMG(1, f, d, p[0]) - y)/(i > 2 && i < 6 ? sa : st);
    }
    zero[n++] = gX[0][7] - c->added_par.scx; zero[n++] = gX[1][7]; zero[n++] = gX[0][8]; zero[n++] = gX[1][8] - 1;
    zero[n++] = gX[0][9] - c->added_par.scx*x*q; zero[n++] = gX[1][9] - y*q;
    zero[n++] = gX[0][10] - c->added_par.scx*x*q*q; zero[n++] = gX[1][10] - y*q*q;
    zero[n++] = gX[0][11] - c->added_par.scx*x*q*q*q; zero[n++] = gX[1][11] - y*q*q*q;
    zero[n++] = gX[0][12] - c->added_par.scx*(2*x*x + q); zero[n++] = gX[1][12] - 2*x*y;
    zero[n++] = gX[0][13] - 2*c->added_par.scx*x*y; zero[n++] = gX[1][13] - (2*y*y + q);
    zero[n++] = gX[0][14] - x*(1 + c->added_par.k1*q + c->added_par.k2*q*q + c->added_par.k3*q*q*q) - c->added_par.p1*(q + 2*x*x) - 2*c->added_par.p2*x*y; zero[n++] = gX[1][14];
    zero[n++] = gX[0][15] + y; zero[n++] = gX[1][15];
}
/* the glass is moved along two directions in its plane, perpendicular to each other, and along its own normal */
#define NG(c) sqrt(N3(&(c)->glass_par.vec_x))
static inline void tangents(const Calibration *c, double *e1, double *e2, int *need) {
    double g[3], a[3] = {1, 2, 3}, n; int k;
    g[0] = c->glass_par.vec_x; g[1] = c->glass_par.vec_y; g[2] = c->glass_par.vec_z;
    for (k = 0; k < 3; k++) e1[k] = CROSS(a, g, k);
    for (k = 0; k < 3; k++) e2[k] = CROSS(e1, g, k);
    need[0] = N3(g) > 0; need[1] = N3(e1) > 0; need[2] = N3(e2) > 0;
    n = sqrt(N3(e2)); for (k = 0; k < 3; k++) e2[k] /= n;
    n = sqrt(N3(e1)); for (k = 0; k < 3; k++) e1[k] /= n;
}
void W_glass(const Calibration *R c, const double *R f, const double *R p, double *R zero, int *R truth, int *R need) {
    scene s; double *r, e1[3], e2[3], *e, x, y, ng; int n = 0, i, j, k; Calibration d; const double *u, *w;
    begin(&s, c, f, p, 2, 07777); tangents(c, e1, e2, need); s.fl.useflag = 0;
    r = orient(&s.cal, &s.cp, 2, s.fix, s.pix, &s.fl, s.sig);
    truth[0] = bad == 0 && rounds == 1 && r != 0; truth[1] = gn == 18;
    ng = NG(c);
    for (j = 0; j < 2; j++) for (i = 0; i < 3; i++) {
        x = IMG(0, f + 3*j, *c, p[0]); y = IMG(1, f + 3*j, *c, p[0]);
        d = *c; e = i == 0 ? e1 : e2; k = 16 + i;
        if (i < 2) { d.glass_par.vec_x += e[0]*ng*0.00001; d.glass_par.vec_y += e[1]*ng*0.00001; d.glass_par.vec_z += e[2]*ng*0.00001; }
        else { d.glass_par.vec_x += c->glass_par.vec_x*ng*0.00001; d.glass_par.vec_y += c->glass_par.vec_y*ng*0.00001; d.glass_par.vec_z += c->glass_par.vec_z*ng*0.00001; }
        zero[n++] = gX[2*j][k] - (IMG(0, f + 3*j, d, p[0]) - x)/0.00001; zero[n++] = gX[2*j + 1][k] - (IMG(1, f + 3*j, d, p[0]) - y)/0.00001;
    }
    u = &s.cal.glass_par.vec_x; w = &c->glass_par.vec_x;
    for (i = 0; i < 3; i++) zero[n++] = u[i] - w[i] - ng*(e1[i]*last[16] + e2[i]*last[17]);
}
/* only what is asked for is changed, by the solution; the rest is held by a large weight */
static inline void gate(scene *s, const Calibration *c, double *zero, int *truth, int k, unsigned flag, const double *now, const double *was) {
    double w = flag ? 1 : 1e10; int i;
    for (i = 0; i < NPAR; i++) zero[i] = gX[k][i] - (i == 6 + k ? w : 0);
    zero[NPAR] = gl[k]; zero[NPAR + 1] = *now - *was - (flag ? last[6 + k] : 0);
}
#define FARGS const Calibration *R c, const double *R f, const double *R p, unsigned flag, double *R zero, int *R truth
#define FLAG(k, F, V) scene s; begin(&s, c, f, p, 0, 07776); s.fl.F = flag; want = IDT; \
    truth[0] = orient(&s.cal, &s.cp, 0, s.fix, s.pix, &s.fl, s.sig) != 0 && bad == 0 && gm == IDT; gate(&s, c, zero, truth, k, flag, &s.cal.V, &c->V);
void W_flag_cc(FARGS) { FLAG(0, ccflag, int_par.cc) }
void W_flag_xh(FARGS) { FLAG(1, xhflag, int_par.xh) }
void W_flag_yh(FARGS) { FLAG(2, yhflag, int_par.yh) }
void W_flag_k1(FARGS) { FLAG(3, k1flag, added_par.k1) }
void W_flag_k2(FARGS) { FLAG(4, k2flag, added_par.k2) }
void W_flag_k3(FARGS) { FLAG(5, k3flag, added_par.k3) }
void W_flag_p1(FARGS) { FLAG(6, p1flag, added_par.p1) }
void W_flag_p2(FARGS) { FLAG(7, p2flag, added_par.p2) }
void W_flag_scx(FARGS) { FLAG(8, scxflag, added_par.scx) }
void W_flag_she(FARGS) { FLAG(9, sheflag, added_par.she) }
/* nothing asked for: the exterior orientation alone is changed */
void W_flag_none(const Calibration *R c, const double *R f, const double *R p, double *R zero, int *R truth) {
    scene s; const double *u, *w; int i, n = 0;
    begin(&s, c, f, p, 1, 0);
    truth[0] = orient(&s.cal, &s.cp, 1, s.fix, s.pix, &s.fl, s.sig) != 0 && bad == 0 && gm == 2 + IDT; truth[1] = gn == 16;
    u = &s.cal.ext_par.x0; w = &c->ext_par.x0; for (i = 0; i < 6; i++) zero[n++] = u[i] - w[i] - last[i];
    zero[n++] = s.cal.ext_par.dm[0][0] - vg_rot(s.cal.ext_par.omega, s.cal.ext_par.phi, s.cal.ext_par.kappa);
    u = &s.cal.int_par.xh; w = &c->int_par.xh; for (i = 0; i < 13; i++) zero[n++] = u[i] - w[i];
}
/* a second round starts from the result of the first, and holds what was changed near its first value */
void W_second(OARGS) {
    scene s; double *r, x, y, xc, yc; int n = 0, i; Calibration d; const double *u, *w; double *v;
    begin(&s, c, f, p, 1, 07776); s.fl.interfflag = 0; s.fl.k2flag = 0; two = 1;
    r = orient(&s.cal, &s.cp, 1, s.fix, s.pix, &s.fl, s.sig);
    truth[0] = bad == 0 && rounds == 2 && r != 0; truth[1] = gm == 2 + IDT && gn == 16 && width == NPAR;
    d = *c; v = &d.ext_par.x0; for (i = 0; i < 6; i++) v[i] += first[i];
    d.int_par.cc += first[6]; d.int_par.xh += first[7]; d.int_par.yh += first[8];
    d.added_par.k1 += first[9]; d.added_par.k3 += first[11]; d.added_par.p1 += first[12]; d.added_par.p2 += first[13]; d.added_par.scx += first[14]; d.added_par.she += first[15];
    x = IMG(0, f, d, p[0]); y = IMG(1, f, d, p[0]);
    xc = vg_pix(0, p[2], p[3], p[1]); yc = vg_pix(1, p[2], p[3], p[1]);
    zero[n++] = gl[0] - (vg_und(0, xc, yc, d.added_par.k1, d.added_par.k2, d.added_par.k3, d.added_par.p1, d.added_par.p2, d.added_par.scx, d.added_par.she) - x);
    zero[n++] = gl[1] - (vg_und(1, xc, yc, d.added_par.k1, d.added_par.k2, d.added_par.k3, d.added_par.p1, d.added_par.p2, d.added_par.scx, d.added_par.she) - y);
    for (i = 0; i < IDT; i++) zero[n++] = gl[2 + i] + (i == 4 ? 0 : first[6 + i]);
    u = &s.cal.ext_par.x0; w = &c->ext_par.x0; for (i = 0; i < 6; i++) zero[n++] = u[i] - w[i] - first[i] - last[i];
    zero[n++] = s.cal.int_par.cc - c->int_par.cc - first[6] - last[6];
    zero[n++] = s.cal.int_par.xh - c->int_par.xh - first[7] - last[7];
    zero[n++] = s.cal.int_par.yh - c->int_par.yh - first[8] - last[8];
    zero[n++] = s.cal.added_par.k1 - c->added_par.k1 - first[9] - last[9]; zero[n++] = s.cal.added_par.k2 - c->added_par.k2;
    zero[n++] = s.cal.added_par.k3 - c->added_par.k3 - first[11] - last[11]; zero[n++] = s.cal.added_par.p1 - c->added_par.p1 - first[12] - last[12];
    zero[n++] = s.cal.added_par.p2 - c->added_par.p2 - first[13] - last[13]; zero[n++] = s.cal.added_par.scx - c->added_par.scx - first[14] - last[14];
    zero[n++] = s.cal.added_par.she - c->added_par.she - first[15] - last[15];
    u = &s.cal.glass_par.vec_x; w = &c->glass_par.vec_x; for (i = 0; i < 3; i++) zero[n++] = u[i] - w[i];
}
/* which points are used: those found for their own place, every one, odd, even, or those not third */
static inline void used(const Calibration *c, const double *f, const double *p, double *zero, int *truth, int flag, int a, int b, int e, int g, int cnt) {
    scene s; int i, n = 0; int w[4];
    w[0] = a; w[1] = b; w[2] = e; w[3] = g;
    begin(&s, c, f, p, 6, 0); s.fl.useflag = flag; s.pix[2].pnr = -999; s.pix[3].pnr = 4; want = 2*cnt;
    truth[0] = orient(&s.cal, &s.cp, 6, s.fix, s.pix, &s.fl, s.sig) != 0 && bad == 0; truth[1] = gm == 2*cnt + IDT;
    for (i = 0; i < cnt; i++) {
        double xc = vg_pix(0, p[2 + 2*w[i]], p[3 + 2*w[i]], p[1]), yc = vg_pix(1, p[2 + 2*w[i]], p[3 + 2*w[i]], p[1]);
        zero[n++] = gl[2*i] - (vg_und(0, xc, yc, c->added_par.k1, c->added_par.k2, c->added_par.k3, c->added_par.p1, c->added_par.p2, c->added_par.scx, c->added_par.she) - IMG(0, f + 3*w[i], *c, p[0]));
        zero[n++] = gl[2*i + 1] - (vg_und(1, xc, yc, c->added_par.k1, c->added_par.k2, c->added_par.k3, c->added_par.p1, c->added_par.p2, c->added_par.scx, c->added_par.she) - IMG(1, f + 3*w[i], *c, p[0]));
    }
}
void W_used_all(OARGS) { used(c, f, p, zero, truth, 0, 0, 1, 4, 5, 4); }
void W_used_odd(OARGS) { used(c, f, p, zero, truth, 1, 1, 5, 0, 0, 2); }
void W_used_even(OARGS) { used(c, f, p, zero, truth, 2, 0, 4, 0, 0, 2); }
void W_used_third(OARGS) { used(c, f, p, zero, truth, 3, 1, 4, 5, 0, 3); }
/* residuals and deviations */
void W_resid(OARGS) {
    scene s; double *r, om = 0, w; int i, n = 0;
    begin(&s, c, f, p, 5, 07776); s.fl.interfflag = 0; s.fl.p1flag = 0;
    r = orient(&s.cal, &s.cp, 5, s.fix, s.pix, &s.fl, s.sig);
    truth[0] = r != 0 && bad == 0 && rounds == 1;
    for (i = 0; i < 20; i++) {
        w = i == 16 ? gl[i]/1e10 : gl[i]; zero[n++] = r[i] - (vg_xb(i) - w);
        om += (vg_xb(i) - w)*(vg_xb(i) - w)*(i == 16 ? 1e20 : 1);
    }
    zero[n++] = s.sig[NPAR] - sqrt(om/4);
    for (i = 0; i < 16; i++) zero[n++] = s.sig[i] - s.sig[NPAR]*sqrt(vg_inv(i));
    for (; i < NPAR; i++) zero[n++] = s.sig[i];
}
