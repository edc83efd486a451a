/* the measurement volume: bounding box of the corner rays of all cameras at both height limits */
#include "vg.h"
#include <stdlib.h>
#include "calibration.h"
#include "parameters.h"
#include "multimed.h"
#include "ray_tracing.h"
#include "trafo.h"
#include "imgcoord.h"
double vg_ray(int what, double x, double y, double id) __attribute__((const));
void pixel_to_metric(double *x, double *y, double xp, double yp, control_par *cp) { *x = xp; *y = yp; }
void correct_brown_affin(double x, double y, ap_52 ap, double *x1, double *y1) { *x1 = x; *y1 = y; }
void correct_brown_affine_exact(double x, double y, ap_52 ap, double *x1, double *y1, double tol) { *x1 = x; *y1 = y; }
void ray_tracing(double x, double y, Calibration *cal, mm_np mm, double X[3], double a[3]) {
    double id = cal->int_par.cc + 2*mm.n3;
    int i;
    for (i = 0; i < 3; i++) { X[i] = vg_ray(i, x, y, id); a[i] = vg_ray(3 + i, x, y, id); }
    i = 1 - (int)mm.n1;                       /* the axis that is not looked at stays at 0 */
    X[i] = a[i] = 0;
}
/* what: 0 xmax, 1 xmin, 2 ymax, 3 ymin; two of the four corners (imx = 0 or imy = 0), or one height, at a time */
static inline double at(int c, double Z, double x, double y, double id) {
    return vg_ray(c, x, y, id) + (Z - vg_ray(2, x, y, id))*vg_ray(3 + c, x, y, id) / vg_ray(5, x, y, id);
}
static inline void vol(int what, int ncam, double z0, double z1, double Z0, double Z1, int imx, int imy, double n3, double *in, double *cc, double *zero, int *truth) {
    Calibration c[2], *cals[2]; control_par cp; volume_par vp; mm_np mm; double v[6] = {0, 0, 0, 0, 0, 0}, lo, hi, pr, q; int i, j, k, n = 0;
    cp.mm = &mm; cp.imx = imx; cp.imy = imy; cp.num_cams = ncam; mm.n3 = n3; mm.nlay = 1; mm.n1 = what >> 1;
    vp.Zmin_lay[0] = z0; vp.Zmin_lay[1] = z1; vp.Zmax_lay[0] = Z0; vp.Zmax_lay[1] = Z1;
    for (i = 0; i < ncam; i++) { c[i].int_par.cc = cc[i]; c[i].int_par.xh = c[i].int_par.yh = 0; cals[i] = &c[i]; }
    v[what] = in[what];
    volumedimension(&v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &vp, &cp, cals);
    lo = z0 < z1 ? z0 : z1; hi = Z0 > Z1 ? Z0 : Z1;
    pr = v[what] - in[what];
    for (i = 0; i < ncam; i++)
        for (j = 0; j < 4; j++) {
            if ((j & 1 && imx == 0) || (j & 2 && imy == 0)) continue;
            for (k = 0; k < 2; k++) {
                if (k && lo == hi) continue;
                q = at(what >> 1, k ? hi : lo, j & 1 ? imx : 0, j & 2 ? imy : 0, cc[i] + 2*n3);
                truth[n++] = what & 1 ? v[what] <= q : v[what] >= q;
                pr = pr*(v[what] - q);
            }
        }
    truth[n++] = what & 1 ? v[what] <= in[what] : v[what] >= in[what];
    zero[0] = pr; zero[1] = v[4] - hi; zero[2] = v[5] - lo;
}
#define VA double n3, double *R in, double *R cc, double *R zero, int *R truth
void W_vol_xmax_corners(VA) { vol(0, 1, -3, -3, -3, -3, 64, 48, n3, in, cc, zero, truth); }
void W_vol_xmax_x(VA) { vol(0, 1, -3, -4, 5, 5, 64, 0, n3, in, cc, zero, truth); }
void W_vol_xmax_y(VA) { vol(0, 1, -4, -3, 5, 6, 0, 48, n3, in, cc, zero, truth); }
void W_vol_xmax_z(VA) { vol(0, 1, -4, -4, 6, 5, 0, 0, n3, in, cc, zero, truth); }
void W_vol_xmax_cam(VA) { vol(0, 2, -3, -3, -3, -3, 64, 0, n3, in, cc, zero, truth); }
void W_vol_xmin_corners(VA) { vol(1, 1, -3, -3, -3, -3, 64, 48, n3, in, cc, zero, truth); }
void W_vol_xmin_x(VA) { vol(1, 1, -3, -4, 5, 5, 64, 0, n3, in, cc, zero, truth); }
void W_vol_xmin_y(VA) { vol(1, 1, -4, -3, 5, 6, 0, 48, n3, in, cc, zero, truth); }
void W_vol_xmin_z(VA) { vol(1, 1, -4, -4, 6, 5, 0, 0, n3, in, cc, zero, truth); }
void W_vol_xmin_cam(VA) { vol(1, 2, -3, -3, -3, -3, 64, 0, n3, in, cc, zero, truth); }
void W_vol_ymax_corners(VA) { vol(2, 1, -3, -3, -3, -3, 64, 48, n3, in, cc, zero, truth); }
void W_vol_ymax_x(VA) { vol(2, 1, -3, -4, 5, 5, 64, 0, n3, in, cc, zero, truth); }
void W_vol_ymax_y(VA) { vol(2, 1, -4, -3, 5, 6, 0, 48, n3, in, cc, zero, truth); }
void W_vol_ymax_z(VA) { vol(2, 1, -4, -4, 6, 5, 0, 0, n3, in, cc, zero, truth); }
void W_vol_ymax_cam(VA) { vol(2, 2, -3, -3, -3, -3, 64, 0, n3, in, cc, zero, truth); }
void W_vol_ymin_corners(VA) { vol(3, 1, -3, -3, -3, -3, 64, 48, n3, in, cc, zero, truth); }
void W_vol_ymin_x(VA) { vol(3, 1, -3, -4, 5, 5, 64, 0, n3, in, cc, zero, truth); }
void W_vol_ymin_y(VA) { vol(3, 1, -4, -3, 5, 6, 0, 48, n3, in, cc, zero, truth); }
void W_vol_ymin_z(VA) { vol(3, 1, -4, -4, 6, 5, 0, 0, n3, in, cc, zero, truth); }
void W_vol_ymin_cam(VA) { vol(3, 2, -3, -3, -3, -3, 64, 0, n3, in, cc, zero, truth); }
