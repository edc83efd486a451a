#include "vg.h"
#include "calibration.h"
#include "trafo.h"
#include "parameters.h"
#include "imgcoord.h"
/* Brown's model about the sensor centre, then scale and shear */
static void brown(double x, double y, const ap_52 *ap, double *u, double *v) {
    double r2 = x*x + y*y, rad = ap->k1*r2 + ap->k2*r2*r2 + ap->k3*r2*r2*r2;
    double bx = x + x*rad + ap->p1*(r2 + 2*x*x) + 2*ap->p2*x*y;
    double by = y + y*rad + ap->p2*(r2 + 2*y*y) + 2*ap->p1*x*y;
    *u = ap->scx*bx - sin(ap->she)*by; *v = cos(ap->she)*by;
}
void W_brown(double x, double y, ap_52 *R ap, double *R zero) {
    double a, b, c, d;
    distort_brown_affin(x, y, *ap, &a, &b);
    brown(x, y, ap, &c, &d);
    zero[0] = a - c; zero[1] = b - d;
}
void W_identity(double x, double y, double *R zero) {
    double a, b; ap_52 p = {0, 0, 0, 0, 0, 1, 0};
    distort_brown_affin(x, y, p, &a, &b);
    zero[0] = a - x; zero[1] = b - y;
}
/* the two axes are treated alike */
void W_swap(double x, double y, double k1, double k2, double k3, double p1, double p2, double *R zero) {
    double a, b, c, d; ap_52 p = {k1, k2, k3, p1, p2, 1, 0}, q = {k1, k2, k3, p2, p1, 1, 0};
    distort_brown_affin(x, y, p, &a, &b);
    distort_brown_affin(y, x, q, &c, &d);
    zero[0] = a - d; zero[1] = b - c;
}
void W_flat_dist(double x, double y, Calibration *R cal, double *R zero) {
    double a, b, c, d;
    flat_to_dist(x, y, cal, &a, &b);
    brown(x + cal->int_par.xh, y + cal->int_par.yh, &cal->added_par, &c, &d);
    zero[0] = a - c; zero[1] = b - d;
}
/* without distortion the correction is the exact inverse */
void W_lp_noloop_inverse(double x, double y, double p_scx, double she, double xh, double yh, double tol, double *R zero) {
    Calibration cal; double a, b, c, d;
    memset(&cal.added_par, 0, sizeof(cal.added_par));
    cal.added_par.scx = p_scx;
    cal.int_par.xh = xh; cal.int_par.yh = yh;
    dist_to_flat(x, y, &cal, &a, &b, tol);
    flat_to_dist(a, b, &cal, &c, &d);
    zero[0] = (c - x)*(x*x + y*y); zero[1] = (d - y)*(x*x + y*y);
}
/* shear without radial or decentering terms: y is recovered exactly, x solves the shear equation */
void W_lp_shear(double x, double y, ap_52 *R ap, double tol, double *R zero, int *R need) {
    double a, b, Y = vg_loop(0); ap_52 p = *ap;
    need[0] = x*x + y*y > 0;
    p.k1 = p.k2 = p.k3 = p.p1 = p.p2 = 0;
    correct_brown_affine_exact(x, y, p, &a, &b, tol);
    zero[0] = b*cos(p.she) - y;
    zero[1] = p.scx*a - sin(p.she)*Y - x;
}
/* with distortion the answer satisfies the model with the correction terms taken at the last iterate */
void W_lp_fixpoint(double x, double y, ap_52 *R ap, double tol, double *R zero, int *R need) {
    double a, b, X = vg_loop(0), Y = vg_loop(1), r = vg_loop(2);
    double rad = ap->k1*r*r + ap->k2*r*r*r*r + ap->k3*r*r*r*r*r*r;
    need[0] = x*x + y*y > 0;
    correct_brown_affine_exact(x, y, *ap, &a, &b, tol);
    zero[0] = ap->scx*(a + X*rad + ap->p1*(r*r + 2*X*X) + 2*ap->p2*X*Y) - sin(ap->she)*Y - x;
    zero[1] = cos(ap->she)*(b + Y*rad + ap->p2*(r*r + 2*Y*Y) + 2*ap->p1*X*Y) - y;
}
/* ... and each iterate is the same correction taken at the previous one */
void W_lp_iterate(double x, double y, ap_52 *R ap, double tol, double *R zero, int *R need) {
    double a, b, X = vg_loop(0), Y = vg_loop(1), r = vg_loop(2);
    double rad = ap->k1*r*r + ap->k2*r*r*r*r + ap->k3*r*r*r*r*r*r, u, v, q;
    need[0] = x*x + y*y > 0;
    correct_brown_affine_exact(x, y, *ap, &a, &b, tol);
    u = vg_next(0); v = vg_next(1); q = sqrt(u*u + v*v);
    zero[0] = ap->scx*(u + X*rad + ap->p1*(r*r + 2*X*X) + 2*ap->p2*X*Y) - sin(ap->she)*Y - x;
    zero[1] = cos(ap->she)*(v + Y*rad + ap->p2*(r*r + 2*Y*Y) + 2*ap->p1*u*Y) - y;
    zero[2] = vg_next(2) - (q > 1.2*r ? 0.5*r : q);
}
void W_centre(double tol, ap_52 *R ap, double *R zero) {
    double a = 1, b = 1;
    correct_brown_affine_exact(0, 0, *ap, &a, &b, tol);
    zero[0] = a; zero[1] = b;
    a = b = 1;
    correct_brown_affin(0, 0, *ap, &a, &b);
    zero[2] = a; zero[3] = b;
}
