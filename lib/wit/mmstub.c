/* multimed_nlay and the projection on top of an arbitrary radial shift */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "multimed.h"
#include "imgcoord.h"
double vg_mmf(double, double, double, double, double, double) __attribute__((const));
double multimed_r_nlay(Calibration *cal, mm_np *mm, vec3d pos) {
    return vg_mmf(cal->ext_par.x0, cal->ext_par.y0, cal->ext_par.z0, pos[0], pos[1], pos[2]);
}
void W_nlay(double x0, double y0, double z0, double px, double py, double pz, double *R zero) {
    Calibration cal; mm_np mm; vec3d P; double X, Y, f;
    cal.ext_par.x0 = x0; cal.ext_par.y0 = y0; cal.ext_par.z0 = z0;
    vec_set(P, px, py, pz);
    multimed_nlay(&cal, &mm, P, &X, &Y);
    f = vg_mmf(x0, y0, z0, px, py, pz);
    zero[0] = X - x0 - f*(px - x0); zero[1] = Y - y0 - f*(py - y0);
}
/* the projected point is the pinhole image of the point shifted radially by the refraction */
static inline void proj(Calibration *c, double g, double b, int axis, mm_np *mm, double *p, double *R zero, int *R need) {
    Calibration cal; double x, y, gu[3], P[3] = {p[0], p[1], p[2]}, A[3], q[3], C[3], hc, hp, r2, f; int i;
    memset(gu, 0, sizeof(gu)); gu[axis] = sin(b); gu[2] = cos(b);
    cal.ext_par = c->ext_par; cal.int_par = c->int_par; cal.mmlut.data = NULL;
    cal.glass_par.vec_x = g*gu[0]; cal.glass_par.vec_y = g*gu[1]; cal.glass_par.vec_z = g*gu[2];
    flat_image_coord(P, &cal, mm, &x, &y);
    C[0] = cal.ext_par.x0; C[1] = cal.ext_par.y0; C[2] = cal.ext_par.z0;
    hc = DOT(C, gu) - g; hp = DOT(P, gu) - g;
    for (i = 0; i < 3; i++) q[i] = (P[i] - hp*gu[i]) - (C[i] - hc*gu[i]);
    r2 = N3(q);
    need[0] = r2 > 0;
    f = vg_mmf(0, 0, hc, sqrt(r2), 0, hp);
    for (i = 0; i < 3; i++) A[i] = (f*q[i] + (hp - hc)*gu[i]);      /* apparent point relative to the camera */
    {
        double (*m)[3] = cal.ext_par.dm;
        double u = m[0][0]*A[0] + m[1][0]*A[1] + m[2][0]*A[2], v = m[0][1]*A[0] + m[1][1]*A[1] + m[2][1]*A[2],
            w = m[0][2]*A[0] + m[1][2]*A[1] + m[2][2]*A[2];
        zero[0] = x*w + cal.int_par.cc*u;
        zero[1] = y*w + cal.int_par.cc*v;
    }
}
void W_g_proj_x(Calibration *R c, double p_g, double b, mm_np *R mm, double *R p, double *R zero, int *R need) { proj(c, p_g, b, 0, mm, p, zero, need); }
void W_g_proj_y(Calibration *R c, double p_g, double b, mm_np *R mm, double *R p, double *R zero, int *R need) { proj(c, p_g, b, 1, mm, p, zero, need); }
void W_img_coord(Calibration *R c, mm_np *R mm, double *R p, double *R zero) {
    double x, y, u, v, P[3] = {p[0], p[1], p[2]};
    img_coord(P, c, mm, &x, &y);
    flat_image_coord(P, c, mm, &u, &v);
    flat_to_dist(u, v, c, &u, &v);
    zero[0] = x - u; zero[1] = y - v;
}
/* without refraction: a plain pinhole with the focal length in front, whatever the glass */
void W_g_axis(double x0, double y0, double z0, double p_g, double p_cc, double z, double *R zero) {
    Calibration c; mm_np mm; double x, y, P[3] = {x0, y0, z};
    c.ext_par.omega = c.ext_par.phi = c.ext_par.kappa = 0; rotation_matrix(&c.ext_par);
    c.ext_par.x0 = x0; c.ext_par.y0 = y0; c.ext_par.z0 = z0; c.int_par.cc = p_cc; c.mmlut.data = NULL;
    c.glass_par.vec_x = 0; c.glass_par.vec_y = 0; c.glass_par.vec_z = p_g; mm.d[0] = 5;
    flat_image_coord(P, &c, &mm, &x, &y);
    zero[0] = x; zero[1] = y;
}
