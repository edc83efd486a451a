/* intersecting rays, epipolar segments: on top of arbitrary ray tracing and projection */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "ray_tracing.h"
#include "multimed.h"
#include "imgcoord.h"
#include "orientation.h"
#include "epi.h"
double vg_ray(int what, int i, double x, double y, double id, double n) __attribute__((const));
void ray_tracing(double x, double y, Calibration *cal, mm_np mm, double X[3], double out[3]) {
    int i;
    for (i = 0; i < 3; i++) {
        X[i] = vg_ray(0, i, x, y, cal->int_par.cc, mm.n3);
        out[i] = vg_ray(1, i, x, y, cal->int_par.cc, mm.n3);
    }
}
double vg_img(int what, double X, double Y, double Z, double id, double n) __attribute__((const));
void flat_image_coord(vec3d p, Calibration *cal, mm_np *mm, double *x, double *y) {
    *x = vg_img(0, p[0], p[1], p[2], cal->int_par.cc, mm->n3);
    *y = vg_img(1, p[0], p[1], p[2], cal->int_par.cc, mm->n3);
}
static void depth(volume_par *v, double x, double *lo, double *hi) {
    double t = (x - v->X_lay[0])/(v->X_lay[1] - v->X_lay[0]);
    *lo = (1 - t)*v->Zmin_lay[0] + t*v->Zmin_lay[1];
    *hi = (1 - t)*v->Zmax_lay[0] + t*v->Zmax_lay[1];
}
static void at(double z, double *p, double *d, double *o) {
    o[0] = p[0] + d[0]*(z - p[2])/d[2]; o[1] = p[1] + d[1]*(z - p[2])/d[2]; o[2] = z;
}
void W_epi(double x, double y, Calibration *R c1, Calibration *R c2, mm_np *R mm, volume_par *R v, double *R zero) {
    double a, b, c, d, lo, hi, o[3], p[3], r[3]; int i;
    epi_mm(x, y, c1, c2, mm, v, &a, &b, &c, &d);
    for (i = 0; i < 3; i++) { p[i] = vg_ray(0, i, x, y, c1->int_par.cc, mm->n3); r[i] = vg_ray(1, i, x, y, c1->int_par.cc, mm->n3); }
    depth(v, p[0], &lo, &hi);
    at(lo, p, r, o);
    zero[0] = a - vg_img(0, o[0], o[1], o[2], c2->int_par.cc, mm->n3);
    zero[1] = b - vg_img(1, o[0], o[1], o[2], c2->int_par.cc, mm->n3);
    at(hi, p, r, o);
    zero[2] = c - vg_img(0, o[0], o[1], o[2], c2->int_par.cc, mm->n3);
    zero[3] = d - vg_img(1, o[0], o[1], o[2], c2->int_par.cc, mm->n3);
}
void W_epi2d(double x, double y, Calibration *R c1, mm_np *R mm, volume_par *R v, double *R zero) {
    double lo, hi, o[3], p[3], r[3]; vec3d out; int i;
    epi_mm_2D(x, y, c1, mm, v, out);
    for (i = 0; i < 3; i++) { p[i] = vg_ray(0, i, x, y, c1->int_par.cc, mm->n3); r[i] = vg_ray(1, i, x, y, c1->int_par.cc, mm->n3); }
    depth(v, p[0], &lo, &hi);
    at((lo + hi)/2, p, r, o);
    for (i = 0; i < 3; i++) zero[i] = out[i] - o[i];
}
/* the midpoint and length of the common perpendicular of two lines */
void W_g_skew(vec3d v1, vec3d d1, vec3d v2, vec3d d2, double *R zero, int *R need) {
    vec3d a, b, c, d, m; double t1, t2, n[3], n2, dist, q; int i;
    vec_copy(a, v1); vec_copy(b, d1); vec_copy(c, v2); vec_copy(d, d2);
    dist = skew_midpoint(a, b, c, d, m);
    for (i = 0; i < 3; i++) n[i] = CROSS(b, d, i);
    n2 = N3(n);
    need[0] = n2 != 0;
    {
        double w[3] = {c[0] - a[0], c[1] - a[1], c[2] - a[2]}, bb = DOT(b, b), dd = DOT(d, d), bd = DOT(b, d), wb = DOT(w, b), wd = DOT(w, d);
        /* normal equations of the closest points a + t1 b, c + t2 d */
        t1 = (wb*dd - wd*bd)/(bb*dd - bd*bd);
        t2 = (wb*bd - wd*bb)/(bb*dd - bd*bd);
        for (i = 0; i < 3; i++) {
            zero[i] = 2*m[i] - (a[i] + t1*b[i]) - (c[i] + t2*d[i]);
            n[i] = a[i] + t1*b[i] - c[i] - t2*d[i];
        }
        zero[3] = dist*dist - N3(n);
    }
}
