/* search windows, candidate registration on top of arbitrary projection */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "track.h"
#include "imgcoord.h"
#include "trafo.h"
double vg_img(int what, double X, double Y, double Z, double id, double n) __attribute__((const));
void flat_image_coord(vec3d p, Calibration *cal, mm_np *mm, double *x, double *y) {
    *x = vg_img(0, p[0], p[1], p[2], cal->int_par.cc, mm->n3);
    *y = vg_img(1, p[0], p[1], p[2], cal->int_par.cc, mm->n3);
}
double vg_dist(int what, double x, double y, double id) __attribute__((const));
void flat_to_dist(double x, double y, Calibration *cal, double *u, double *v) {
    *u = vg_dist(0, x, y, cal->int_par.cc);
    *v = vg_dist(1, x, y, cal->int_par.cc);
}
void W_img_coord(double X, double Y, double Z, Calibration *R c, mm_np *R mm, double *R zero) {
    double x, y, u, v, P[3] = {X, Y, Z};
    img_coord(P, c, mm, &x, &y);
    u = vg_img(0, X, Y, Z, c->int_par.cc, mm->n3); v = vg_img(1, X, Y, Z, c->int_par.cc, mm->n3);
    zero[0] = x - vg_dist(0, u, v, c->int_par.cc); zero[1] = y - vg_dist(1, u, v, c->int_par.cc);
}
static void pixel(double X, double Y, double Z, Calibration *c, control_par *cp, double *x, double *y) {
    double u, v; mm_np *mm = cp->mm;
    u = vg_img(0, X, Y, Z, c->int_par.cc, mm->n3); v = vg_img(1, X, Y, Z, c->int_par.cc, mm->n3);
    metric_to_pixel(x, y, vg_dist(0, u, v, c->int_par.cc), vg_dist(1, u, v, c->int_par.cc), cp);
}
void W_point_to_pixel(double X, double Y, double Z, Calibration *R c, control_par *R cp, mm_np *R mm, double *R zero) {
    double P[3] = {X, Y, Z}, o[2], x, y; control_par k = *cp;
    k.mm = mm;
    point_to_pixel(o, P, c, &k);
    pixel(X, Y, Z, c, &k, &x, &y);
    zero[0] = o[0] - x; zero[1] = o[1] - y;
}
