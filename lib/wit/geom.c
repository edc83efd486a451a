/* Witnesses: compositions of library functions whose results the property fixes. */
#include "vg.h"
#include "vec_utils.h"
#include "calibration.h"
#include "trafo.h"
#include "parameters.h"
#include "ray_tracing.h"
#include "multimed.h"
#include "imgcoord.h"
#include "lsqadj.h"
#include "epi.h"

/* ---- C17 pixel/metric ---- */
void W_pix_roundtrip(double x, double y, control_par *R cp, double *R zero) {
    double a, b, c, d;
    pixel_to_metric(&a, &b, x, y, cp);
    metric_to_pixel(&c, &d, a, b, cp);
    zero[0] = c - x; zero[1] = d - y;
    metric_to_pixel(&a, &b, x, y, cp);
    pixel_to_metric(&c, &d, a, b, cp);
    zero[2] = c - x; zero[3] = d - y;
}
void W_pix_origin(double x, double y, control_par *R cp, double *R zero, int *R need) {
    double a, b, c, d;
    need[0] = cp->chfield == 0;
    /* image centre <-> (0,0); one pixel right is +pix_x, one pixel down is -pix_y */
    pixel_to_metric(&a, &b, cp->imx/2., cp->imy/2., cp);
    zero[0] = a; zero[1] = b;
    pixel_to_metric(&a, &b, x, y, cp);
    pixel_to_metric(&c, &d, x + 1, y + 1, cp);
    zero[2] = c - a - cp->pix_x; zero[3] = d - b + cp->pix_y;
}
void W_pix_fields(double x, double y, control_par *R cp, double *R zero, int *R need) {
    double a, b, c, d;
    need[0] = cp->chfield == 1 || cp->chfield == 2;
    pixel_to_metric(&a, &b, x, y, cp);
    old_pixel_to_metric(&c, &d, x, cp->chfield == 1 ? 2*y + 1 : 2*y, cp->imx, cp->imy, cp->pix_x, cp->pix_y, 0);
    zero[0] = a - c; zero[1] = b - d;
}
/* ---- rotation ---- */
void W_rot(double om, double ph, double ka, double *R zero) {
    Exterior e; int i, j, k, n = 0;
    double rx[3][3], ry[3][3], rz[3][3], t[3][3], r[3][3];
    e.omega = om; e.phi = ph; e.kappa = ka;
    rotation_matrix(&e);
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) {
        double s = 0;
        for (k = 0; k < 3; k++) s += e.dm[i][k]*e.dm[j][k];
        zero[n++] = s - (i == j);
    }
    zero[n++] = e.dm[0][0]*(e.dm[1][1]*e.dm[2][2] - e.dm[1][2]*e.dm[2][1])
        - e.dm[0][1]*(e.dm[1][0]*e.dm[2][2] - e.dm[1][2]*e.dm[2][0])
        + e.dm[0][2]*(e.dm[1][0]*e.dm[2][1] - e.dm[1][1]*e.dm[2][0]) - 1;
    {
        double RX[3][3] = {{1,0,0},{0,cos(om),-sin(om)},{0,sin(om),cos(om)}};
        double RY[3][3] = {{cos(ph),0,sin(ph)},{0,1,0},{-sin(ph),0,cos(ph)}};
        double RZ[3][3] = {{cos(ka),-sin(ka),0},{sin(ka),cos(ka),0},{0,0,1}};
        for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) {
            t[i][j] = 0;
            for (k = 0; k < 3; k++) t[i][j] += RX[i][k]*RY[k][j];
        }
        for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) {
            r[i][j] = 0;
            for (k = 0; k < 3; k++) r[i][j] += t[i][k]*RZ[k][j];
            zero[n++] = r[i][j] - e.dm[i][j];
        }
    }
}
/* ---- vectors ---- */
#define GUARD zero[n++] = w[3] - s
void W_vec(vec3d a, vec3d b, double s, double *R zero) {
    vec3d u, v; double w[4], t[4]; int i, n = 0;
    w[3] = t[3] = s;                 /* the number behind the vector stays as it is */
    vec_copy(t, a); zero[n++] = t[3] - s;
    for (i = 0; i < 3; i++) { u[i] = a[i]; v[i] = b[i]; zero[n++] = t[i] - u[i]; }
    vec_add(u, v, w); for (i = 0; i < 3; i++) zero[n++] = w[i] - (u[i] + v[i]);
    GUARD;
    vec_subt(u, v, w); for (i = 0; i < 3; i++) zero[n++] = w[i] - (u[i] - v[i]);
    GUARD;
    vec_scalar_mul(u, s, w); for (i = 0; i < 3; i++) zero[n++] = w[i] - s*u[i];
    GUARD;
    vec_cross(u, v, w);
    zero[n++] = w[0] - (u[1]*v[2] - u[2]*v[1]);
    zero[n++] = w[1] - (u[2]*v[0] - u[0]*v[2]);
    zero[n++] = w[2] - (u[0]*v[1] - u[1]*v[0]);
    GUARD;
    zero[n++] = vec_dot(u, v) - (u[0]*v[0] + u[1]*v[1] + u[2]*v[2]);
    zero[n++] = vec_norm(u) - sqrt(N3(u));
    vec_subt(u, v, w);
    zero[n++] = vec_diff_norm(u, v) - sqrt(N3(w));
    vec_set(w, u[0], v[1], s);
    zero[n++] = w[0] - u[0]; zero[n++] = w[1] - v[1]; zero[n++] = w[2] - s;
    GUARD;
    for (i = 0; i < 3; i++) { zero[n++] = u[i] - a[i]; zero[n++] = v[i] - b[i]; }   /* inputs unchanged */
}
/* results may overwrite an operand */
void W_vec_inplace(vec3d a, vec3d b, double s, double *R zero) {
    vec3d u, v, w; int i, n = 0;
    for (i = 0; i < 3; i++) { u[i] = a[i]; v[i] = b[i]; }
    vec_add(u, v, u); for (i = 0; i < 3; i++) zero[n++] = u[i] - (a[i] + b[i]);
    vec_subt(u, v, u); for (i = 0; i < 3; i++) zero[n++] = u[i] - a[i];
    vec_subt(u, v, v); for (i = 0; i < 3; i++) zero[n++] = v[i] - (a[i] - b[i]);
    vec_add(u, v, v); for (i = 0; i < 3; i++) zero[n++] = v[i] - (2*a[i] - b[i]);
    vec_scalar_mul(u, s, u); for (i = 0; i < 3; i++) zero[n++] = u[i] - s*a[i];
}
void W_unit(vec3d a, double s, double *R zero, int *R need) {
    vec3d u, w; double v[4];
    vec_copy(u, a); v[3] = s;
    need[0] = u[0]*u[0] + u[1]*u[1] + u[2]*u[2] > 0;
    unit_vector(u, v);
    zero[10] = v[3] - s;
    zero[0] = vec_norm(v)*vec_norm(v) - 1;
    zero[1] = v[0]*sqrt(N3(u)) - u[0];
    zero[2] = v[1]*sqrt(N3(u)) - u[1];
    zero[3] = v[2]*sqrt(N3(u)) - u[2];
    unit_vector(u, u);             /* in place */
    zero[4] = u[0] - v[0]; zero[5] = u[1] - v[1]; zero[6] = u[2] - v[2];
    vec_set(w, 0, 0, 0);
    unit_vector(w, w);
    zero[7] = w[0]; zero[8] = w[1]; zero[9] = w[2];
}
/* ---- ray tracing ---- */
/* one ray: rotation about one axis by `a` (0: none), glass normal p_g*(sin b about axis, .., cos b) */
static inline void ray_props(double x, double y, double cc, double x0, double y0, double z0, int raxis, double a,
    int gaxis, double g0, double b, double n1, double n2, double n3, double d, double *R zero) {
    Calibration c; mm_np m;
    vec3d X, out, g, d0, gu; int i; double s;
    m.n1 = n1; m.n2[0] = n2; m.n3 = n3; m.d[0] = d; m.nlay = 1;
    c.ext_par.omega = raxis == 0 ? a : 0; c.ext_par.phi = raxis == 1 ? a : 0; c.ext_par.kappa = raxis == 2 ? a : 0;
    rotation_matrix(&c.ext_par);
    c.ext_par.x0 = x0; c.ext_par.y0 = y0; c.ext_par.z0 = z0;
    c.int_par.cc = cc; c.int_par.xh = 0; c.int_par.yh = 0;
    vec_set(gu, gaxis == 0 ? sin(b) : 0, gaxis == 1 ? sin(b) : 0, gaxis < 2 ? cos(b) : 1);
    vec_set(g, g0*gu[0], g0*gu[1], g0*gu[2]);
    c.glass_par.vec_x = g[0]; c.glass_par.vec_y = g[1]; c.glass_par.vec_z = g[2];
    s = sqrt(x*x + y*y + cc*cc);
    for (i = 0; i < 3; i++)
        d0[i] = (c.ext_par.dm[i][0]*x + c.ext_par.dm[i][1]*y - c.ext_par.dm[i][2]*cc)/s;
    ray_tracing(x, y, &c, m, X, out);
    /* the exit point lies on the inner glass surface: <X, g>/|g| = |g| */
    zero[0] = X[0]*gu[0] + X[1]*gu[1] + X[2]*gu[2] - g0;
    /* the direction is of unit length */
    zero[1] = N3(out) - 1;
    /* refraction: the component along the glass obeys n1 sin(a1) = n3 sin(a3), in the same plane */
    for (i = 0; i < 3; i++) zero[2 + i] = n3*CROSS(gu, out, i) - n1*CROSS(gu, d0, i);
    /* the exit point lies on the ray refracted in the glass from the point where the ray meets the outer surface */
    {
        double gd0 = gu[0]*d0[0] + gu[1]*d0[1] + gu[2]*d0[2];
        double t = (g0 + d - (gu[0]*x0 + gu[1]*y0 + gu[2]*z0))/gd0;
        double q = sqrt(1 - (1 - gd0*gd0)*n1*n1/n2/n2);
        double P[3] = {x0 + t*d0[0], y0 + t*d0[1], z0 + t*d0[2]};
        /* direction in glass: (n1/n2)(d0 - gd0 gu) - q gu ; length d/q */
        for (i = 0; i < 3; i++) zero[5 + i] = X[i] - P[i] - d/q*(n1/n2*(d0[i] - gd0*gu[i]) - q*gu[i]);
    }
}
#define RAYARGS double x, double y, double p_cc, double x0, double y0, double z0, double a, double p_g, double p_n1, double p_n2, double p_n3, double p_d, double *R zero
void W_g_ray_omega(RAYARGS) { ray_props(x, y, p_cc, x0, y0, z0, 0, a, 2, p_g, 0, p_n1, p_n2, p_n3, p_d, zero); }
void W_g_ray_phi(RAYARGS) { ray_props(x, y, p_cc, x0, y0, z0, 1, a, 2, p_g, 0, p_n1, p_n2, p_n3, p_d, zero); }
void W_g_ray_kappa(RAYARGS) { ray_props(x, y, p_cc, x0, y0, z0, 2, a, 2, p_g, 0, p_n1, p_n2, p_n3, p_d, zero); }
void W_g_ray_glassx(RAYARGS) { ray_props(x, y, p_cc, x0, y0, z0, 3, 0, 0, p_g, a, p_n1, p_n2, p_n3, p_d, zero); }
void W_g_ray_glassy(RAYARGS) { ray_props(x, y, p_cc, x0, y0, z0, 3, 0, 1, p_g, a, p_n1, p_n2, p_n3, p_d, zero); }
