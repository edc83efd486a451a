/* the search box seen by the cameras: bounding box of its 8 projected corners, cut to the image */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "track.h"
double vg_pix(int what, double X, double Y, double Z, double id) __attribute__((const));
void point_to_pixel(vec2d o, vec3d p, Calibration *cal, control_par *cp) {
    o[0] = vg_pix(0, p[0], p[1], p[2], cal->int_par.cc); o[1] = vg_pix(1, p[0], p[1], p[2], cal->int_par.cc);
}
void searchquader(vec3d point, double xr[4], double xl[4], double yd[4], double yu[4], track_par *tpar,
    control_par *cpar, Calibration **cal);
/* one of the three box dimensions has no extent, so that there are four distinct corners */
static inline void box(int what, int flat, double X, double Y, double Z, double *lo, double *hi, int imx, int imy, double cc, double *R zero, int *R truth) {
    Calibration c, *cals[1]; control_par cp; track_par t; double r[4], l[4], d[4], u[4], p[3] = {X, Y, Z}, m, k, q[8], pr, lim; int i, n = 0;
    hi[flat] = lo[flat];
    t.dvxmin = lo[0]; t.dvxmax = hi[0]; t.dvymin = lo[1]; t.dvymax = hi[1]; t.dvzmin = lo[2]; t.dvzmax = hi[2];
    cp.num_cams = 1; cp.imx = imx; cp.imy = imy; c.int_par.cc = cc; cals[0] = &c;
    searchquader(p, r, l, d, u, &t, &cp, cals);
    for (i = 0; i < 8; i++)
        q[i] = vg_pix(what >> 1, X + (i & 1 ? hi[0] : lo[0]), Y + (i & 2 ? hi[1] : lo[1]), Z + (i & 4 ? hi[2] : lo[2]), cc);
    k = vg_pix(what >> 1, X, Y, Z, cc);
    m = what == 0 ? k - l[0] : what == 1 ? k + r[0] : what == 2 ? k - u[0] : k + d[0];     /* the limit itself */
    lim = what < 2 ? imx : imy;
    pr = m*(m - lim);
    for (i = 0; i < 8; i++) {
        if (i >> flat & 1) continue;
        /* the limit is the image border or covers the corner */
        truth[n++] = what & 1 ? m >= q[i] || m == lim : m <= q[i] || m == 0;
        pr = pr*(m - q[i]);
    }
    zero[0] = pr;                       /* and it is attained */
    truth[n++] = what & 1 ? m <= lim : m >= 0;
}
#define BOXARGS double X, double Y, double Z, double ax, double bx, double ay, double by, double az, double bz, int imx, int imy, double cc, double *R zero, int *R truth, int *R need
#define BOX(w, f) double lo[3] = {ax, ay, az}, hi[3] = {bx, by, bz}; need[0] = imx > 0 && imy > 0; box(w, f, X, Y, Z, lo, hi, imx, imy, cc, zero, truth);
void W_box_left_xy(BOXARGS) { BOX(0, 2) }
void W_box_left_yz(BOXARGS) { BOX(0, 0) }
void W_box_right_xy(BOXARGS) { BOX(1, 2) }
void W_box_right_yz(BOXARGS) { BOX(1, 0) }
void W_box_up_xy(BOXARGS) { BOX(2, 2) }
void W_box_up_xz(BOXARGS) { BOX(2, 1) }
void W_box_down_xy(BOXARGS) { BOX(3, 2) }
void W_box_down_xz(BOXARGS) { BOX(3, 1) }
