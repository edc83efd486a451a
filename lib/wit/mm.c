/* the refractive interface: projection onto the glass, the radial shift, ray continuation, lookup table */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "multimed.h"
/* camera and point seen in the vertical plane through both, glass inner surface at height 0 */
void W_g_trans(Exterior *R ex, mm_np *R mm, double p_g, double b, vec3d pos, double *R zero) {
    Exterior t; vec3d pt, P; double cp[3], cc[3], gu[3] = {0, sin(b), cos(b)}, w[3], h[3], c[3]; Glass g; int i;
    vec_copy(P, pos);
    c[0] = ex->x0; c[1] = ex->y0; c[2] = ex->z0;
    vec_set(w, p_g*gu[0], p_g*gu[1], p_g*gu[2]);
    g.vec_x = w[0]; g.vec_y = w[1]; g.vec_z = w[2];
    trans_Cam_Point(*ex, *mm, g, P, &t, pt, cp, cc);
    zero[0] = t.x0; zero[1] = t.y0; zero[2] = pt[1];
    zero[3] = t.z0 - (DOT(c, gu) - p_g);                 /* camera height above the inner surface */
    zero[4] = pt[2] - (DOT(P, gu) - p_g);                /* point height */
    zero[5] = DOT(cp, gu) - p_g;                         /* feet lie on the inner and outer surfaces */
    zero[6] = DOT(cc, gu) - p_g - mm->d[0];
    for (i = 0; i < 3; i++) {                            /* straight below / above */
        zero[7 + i] = P[i] - cp[i] - pt[2]*gu[i];
        zero[10 + i] = c[i] - cc[i] - (t.z0 - mm->d[0])*gu[i];
        h[i] = cp[i] - (cc[i] - mm->d[0]*gu[i]);
    }
    zero[13] = pt[0]*pt[0] - N3(h);                       /* horizontal distance */
    zero[14] = fabs(pt[0]) - pt[0];
}
void W_g_trans_back(Exterior *R ex, mm_np *R mm, double p_g, double b, vec3d pos, double *R zero, int *R need) {
    Exterior t; vec3d pt, P, Q; double cp[3], cc[3]; Glass g;
    g.vec_x = 0; g.vec_y = p_g*sin(b); g.vec_z = p_g*cos(b);
    vec_copy(P, pos);
    trans_Cam_Point(*ex, *mm, g, P, &t, pt, cp, cc);
    need[0] = pt[0] > 0;
    back_trans_Point(pt, *mm, g, cp, cc, Q);
    zero[0] = Q[0] - P[0]; zero[1] = Q[1] - P[1]; zero[2] = Q[2] - P[2];
}
void W_g_trans_back_x(Exterior *R ex, mm_np *R mm, double p_g, double b, vec3d pos, double *R zero, int *R need) {
    Exterior t; vec3d pt, P, Q; double cp[3], cc[3]; Glass g;
    g.vec_x = p_g*sin(b); g.vec_y = 0; g.vec_z = p_g*cos(b);
    vec_copy(P, pos);
    trans_Cam_Point(*ex, *mm, g, P, &t, pt, cp, cc);
    need[0] = pt[0] > 0;
    back_trans_Point(pt, *mm, g, cp, cc, Q);
    zero[0] = Q[0] - P[0]; zero[1] = Q[1] - P[1]; zero[2] = Q[2] - P[2];
}
/* straight below the camera: no division by the zero horizontal distance */
void W_trans_back_perp(double x0, double y0, double z0, double d, double p_g, double z, double *R zero) {
    Exterior ex, t; mm_np mm; vec3d pt, P, Q; double cp[3], cc[3]; Glass g;
    ex.x0 = x0; ex.y0 = y0; ex.z0 = z0; mm.d[0] = d;
    g.vec_x = 0; g.vec_y = 0; g.vec_z = p_g;
    vec_set(P, x0, y0, z);
    trans_Cam_Point(ex, mm, g, P, &t, pt, cp, cc);
    back_trans_Point(pt, mm, g, cp, cc, Q);
    zero[0] = Q[0] - P[0]; zero[1] = Q[1] - P[1]; zero[2] = Q[2] - P[2]; zero[3] = pt[0];
}
void W_back_shift(mm_np *R mm, double p_g, double p_r, double s, double z, double cx, double cy, double *R zero) {
    /* a point at horizontal distance s and height z in the plane of camera foot (cx,cy) and point foot (cx+r,cy) */
    vec3d pt, Q; double cp[3] = {cx + p_r, cy, p_g}, cc[3] = {cx, cy, p_g + mm->d[0]}; Glass g;
    g.vec_x = 0; g.vec_y = 0; g.vec_z = p_g;
    vec_set(pt, s, 0, z);
    back_trans_Point(pt, *mm, g, cp, cc, Q);
    zero[0] = Q[0] - (cx + s); zero[1] = Q[1] - cy; zero[2] = Q[2] - (p_g + z);
}
/* same index everywhere: no shift */
void W_noshift(Calibration *R cal, double p_d, vec3d pos, double *R zero) {
    mm_np mm; vec3d P; double X, Y;
    mm.nlay = 1; mm.n1 = 1; mm.n2[0] = 1; mm.n3 = 1; mm.d[0] = p_d;
    vec_copy(P, pos);
    zero[0] = multimed_r_nlay(cal, &mm, P) - 1;
    multimed_nlay(cal, &mm, P, &X, &Y);
    zero[1] = X - P[0]; zero[2] = Y - P[1];
}
/* the search for the radial shift: each step adds the miss of the ray refracted at every surface */
static inline void radial(double x0, double y0, double z0, double n1, double n3, double *n2, double *d, int nlay,
        double px, double py, double pz, double *R zero, int *R truth) {
    Calibration cal; mm_np mm; vec3d P; int i; double rq = vg_loop(0), nx, m, r, s, hit, depth;
    cal.mmlut.data = NULL; cal.ext_par.x0 = x0; cal.ext_par.y0 = y0; cal.ext_par.z0 = z0;
    mm.nlay = nlay; mm.n1 = n1; mm.n3 = n3;
    for (i = 0; i < nlay; i++) { mm.n2[i] = n2[i]; mm.d[i] = d[i]; }
    vec_set(P, px, py, pz);
    m = multimed_r_nlay(&cal, &mm, P);
    nx = vg_next(0);
    r = sqrt((px - x0)*(px - x0) + (py - y0)*(py - y0));
    /* s: sine of the angle in the camera medium of the ray aimed at distance rq */
    s = sin(atan(rq/(z0 - pz)));
    /* in-water depth: the first glass layer ends at height 0, further layers reach into the water */
    depth = -pz; for (i = 1; i < nlay; i++) depth -= d[i];
    hit = (z0 - d[0])*tan(atan(rq/(z0 - pz))) + depth*tan(asin(s*n1/n3));
    for (i = 0; i < nlay; i++) hit += d[i]*tan(asin(s*n1/n2[i]));
    zero[0] = nx - (rq + (r - hit));
}
#define RADARGS double x0, double y0, double z0, double p_n1, double p_n3, double px, double py, double pz, double *R zero, int *R truth
void W_lp_radial1(double n, double d, RADARGS) { double a[1] = {n}, b[1] = {d}; radial(x0, y0, z0, p_n1, p_n3, a, b, 1, px, py, pz, zero, truth); }
void W_lp_radial2(double n, double d, double n2, double d2, RADARGS) { double a[2] = {n, n2}, b[2] = {d, d2}; radial(x0, y0, z0, p_n1, p_n3, a, b, 2, px, py, pz, zero, truth); }
void W_lp_radial3(double n, double d, double n2, double d2, double n3, double d3, RADARGS) { double a[3] = {n, n2, n3}, b[3] = {d, d2, d3}; radial(x0, y0, z0, p_n1, p_n3, a, b, 3, px, py, pz, zero, truth); }
/* the result is 1 or the ratio of the found distance to the true one */
void W_lp_ratio(double x0, double y0, double z0, double p_n1, double p_n2, double p_n3, double d, double px, double py, double pz, double *R truth) {
    Calibration cal; mm_np mm; vec3d P; double m, r;
    cal.mmlut.data = NULL; cal.ext_par.x0 = x0; cal.ext_par.y0 = y0; cal.ext_par.z0 = z0;
    mm.nlay = 1; mm.n1 = p_n1; mm.n3 = p_n3; mm.n2[0] = p_n2; mm.d[0] = d;
    vec_set(P, px, py, pz);
    m = multimed_r_nlay(&cal, &mm, P);
    r = sqrt((px - x0)*(px - x0) + (py - y0)*(py - y0));
    truth[0] = m == 1 || (m*r == vg_loop(0));
}
void W_g_move(double z, vec3d v, vec3d d, double *R zero) {
    vec3d o, V, D; int i; vec_copy(V, v); vec_copy(D, d);
    move_along_ray(z, V, D, o);
    zero[0] = o[2] - z;
    for (i = 0; i < 3; i++) zero[1 + i] = CROSS(o, D, i) - CROSS(V, D, i);   /* on the ray */
}
