/* what the lookup table is made of */
#include "vg.h"
#include <stdlib.h>
#include "calibration.h"
#include "parameters.h"
#include "multimed.h"
#include "ray_tracing.h"
#include "trafo.h"
#include "imgcoord.h"
double vg_mmf(double X, double Y, double Z, double x0, double y0, double n) __attribute__((const));
void pixel_to_metric(double *x, double *y, double xp, double yp, control_par *cp) { *x = xp; *y = yp; }
void correct_brown_affin(double x, double y, ap_52 ap, double *x1, double *y1) { *x1 = x; *y1 = y; }
void correct_brown_affine_exact(double x, double y, ap_52 ap, double *x1, double *y1, double tol) { *x1 = x; *y1 = y; }
double multimed_r_nlay(Calibration *cal, mm_np *mm, vec3d p) {
    return vg_mmf(p[0], p[1], p[2], cal->ext_par.x0, cal->ext_par.y0, mm->n3);
}
/* The camera sits at (10, 20) in the frame of the table.  From image corner (u, v), in 0..1, and height Z, the point in that
   frame is (10 + r, 20, Z), r its own radius. */
void ray_tracing(double x, double y, Calibration *cal, mm_np mm, double X[3], double a[3]) { X[0] = x; X[1] = y; X[2] = 0; a[0] = a[1] = 0; a[2] = 1; }
void move_along_ray(double Z, vec3d v, vec3d d, vec3d out) { out[0] = v[0]; out[1] = v[1]; out[2] = Z; }
void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, Exterior *ex_t, vec3d pos_t, double *cross_p, double *cross_c) {
    double u = pos[0] == 64, v = pos[1] == 48;
    ex_t->x0 = 10; ex_t->y0 = 20; ex_t->z0 = 100;
    pos_t[0] = 10 + (mm.d[0]*(1 - u)*(1 - v) + mm.d[1]*u*(1 - v) + mm.d[2]*(1 - u)*v + mm.n1*u*v);
    pos_t[1] = 20; pos_t[2] = pos[2];
}
/* radii of the four corners; the heights of the volume at its two ends; nodes expected */
static inline void table(double a, double b, double c, double d, double z0, double z1, double Z0, double Z1, int nr, int nz, double zmin,
    double n3, double *zero) {
    Calibration cal; control_par cp; volume_par vp; mm_np mm; int i, j, n = 0;
    memset(&cal, 0, sizeof cal);
    cp.mm = &mm; cp.imx = 64; cp.imy = 48; cp.num_cams = 1; cp.pix_x = cp.pix_y = 1; cp.chfield = 0;
    mm.nlay = 1; mm.d[0] = a; mm.d[1] = b; mm.d[2] = c; mm.n1 = d; mm.n3 = n3; mm.n2[0] = 1;
    vp.Zmin_lay[0] = z0; vp.Zmin_lay[1] = z1; vp.Zmax_lay[0] = Z0; vp.Zmax_lay[1] = Z1; vp.X_lay[0] = -50; vp.X_lay[1] = 50;
    cal.mmlut.data = NULL;
    init_mmlut(&vp, &cp, &cal);
    zero[n++] = cal.mmlut.nr - nr; zero[n++] = cal.mmlut.nz - nz; zero[n++] = cal.mmlut.rw - 2;
    zero[n++] = cal.mmlut.origin[0] - 10; zero[n++] = cal.mmlut.origin[1] - 20; zero[n++] = cal.mmlut.origin[2] - zmin;
    for (i = 0; i < nr; i++)
        for (j = 0; j < nz; j++)
            zero[n++] = cal.mmlut.data[i*nz + j] - vg_mmf(10 + 2*i, 20, zmin + 2*j, 10, 20, n3);
}
void W_tab_corner0(double n3, double *R zero) { table(5, 1, 1, 1, -4, -2, 3, 3, 4, 5, -4, n3, zero); }
void W_tab_corner1(double n3, double *R zero) { table(1, 5, 1, 1, 2, 4, 5, 5, 4, 3, 2, n3, zero); }
void W_tab_corner2(double n3, double *R zero) { table(1, 1, 7, 1, 4, 2, 5, 5, 5, 3, 2, n3, zero); }
void W_tab_corner3(double n3, double *R zero) { table(1, 1, 1, 3, 2, 2, 3, 7, 3, 4, 2, n3, zero); }
void W_tab_z(double n3, double *R zero) { table(1, 1, 1, 3, 2, 2, 7, 3, 3, 4, 2, n3, zero); }
