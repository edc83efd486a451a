/* interpolation in the radial-shift lookup table */
#include "vg.h"
#include "calibration.h"
#include "multimed.h"
/* inside the table: bilinear between the four nodes around (radius, height) over the origin */
static inline void setup(Calibration *cal, double *tab, double *org, int nr, int nz, int rw) {
    cal->mmlut.data = tab; cal->mmlut.nr = nr; cal->mmlut.nz = nz; cal->mmlut.rw = rw;
    cal->mmlut.origin[0] = org[0]; cal->mmlut.origin[1] = org[1]; cal->mmlut.origin[2] = org[2];
}
#define TA double X, double Y, double Z, double *R tab, double *R org, int nr, int nz, int rw, Calibration *R cal
#define PARTS double p[3] = {X, Y, Z}, dx = X - org[0], dy = Y - org[1], dz = Z - org[2], r = sqrt(dx*dx + dy*dy) / rw, z = dz / rw; int i = (int) r, j = (int) z; \
    setup(cal, tab, org, nr, nz, rw)
void W_get_inside(TA, double *R zero, int *R need) {
    double v, fr, fz;
    PARTS;
    fr = r - i; fz = z - j;
    need[0] = rw > 0 && nr > 1 && nz > 1 && r >= 0 && z >= 0 && fz >= 0;
    need[1] = i >= 0 && j >= 0 && i < nr - 1 && j < nz - 1;
    need[2] = i*nz + j >= 0 && (i + 1)*nz + j >= 0 && i*nz + (j + 1) >= 0 && (i + 1)*nz + (j + 1) >= 0;
    need[3] = i*nz + j < nr*nz && (i + 1)*nz + j < nr*nz && i*nz + (j + 1) < nr*nz && (i + 1)*nz + (j + 1) < nr*nz;
    v = (1 - fr)*((1 - fz)*tab[i*nz + j] + fz*tab[i*nz + (j + 1)]) + fr*((1 - fz)*tab[(i + 1)*nz + j] + fz*tab[(i + 1)*nz + (j + 1)]);
    zero[0] = get_mmf_from_mmlut(cal, p) - v;
}
/* outside it: 0, for "not covered" */
void W_get_above(TA, double *R zero, int *R need) { PARTS; need[0] = rw > 0 && nr > 1 && nz > 1 && z >= 0; need[1] = j >= nz - 1; zero[0] = get_mmf_from_mmlut(cal, p); }
void W_get_below(TA, double *R zero, int *R need) { PARTS; need[0] = rw > 0 && nr > 1 && nz > 1; need[1] = z - j < 0 || j < 0; zero[0] = get_mmf_from_mmlut(cal, p); }
void W_get_far(TA, double *R zero, int *R need) { PARTS; need[0] = rw > 0 && nr > 1 && nz > 1; need[1] = i >= nr - 1; zero[0] = get_mmf_from_mmlut(cal, p); }
