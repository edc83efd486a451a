/* use of the radial-shift lookup table, and the table's interpolation */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "multimed.h"
double vg_mmf(double, double, double) __attribute__((const));
double get_mmf_from_mmlut(Calibration *cal, vec3d pos) { return vg_mmf(pos[0], pos[1], pos[2]); }
/* wherever some medium refracts, the table's value is used for the points it covers */
static inline void shortcut(double n1, double n2, double n3, int nlay, Calibration *cal, double *tab, double *p, double *zero, int *need) {
    mm_np mm; vec3d P; double v;
    mm.nlay = nlay; mm.n1 = n1; mm.n3 = n3;
    mm.n2[0] = n2; mm.n2[1] = n1; mm.n2[2] = n1; mm.d[0] = mm.d[1] = mm.d[2] = 1;
    vec_set(P, p[0], p[1], p[2]);
    cal->mmlut.data = tab;
    v = vg_mmf(P[0], P[1], P[2]);
    need[0] = v > 0 && tab != NULL;
    zero[0] = multimed_r_nlay(cal, &mm, P) - v;
}
#define LA Calibration *R cal, double *R tab, double *R p, double *R zero, int *R need
void W_lp_tab(double n1, double n2, double n3, LA) {
    need[1] = !(n1 == 1 && n2 == 1 && n3 == 1);
    shortcut(n1, n2, n3, 1, cal, tab, p, zero, need);
}
void W_lp_tab_n1(double n, LA) { need[1] = n != 1; shortcut(n, 1, 1, 1, cal, tab, p, zero, need); }
void W_lp_tab_n2(double n, LA) { need[1] = n != 1; shortcut(1, n, 1, 1, cal, tab, p, zero, need); }
void W_lp_tab_n3(double n, LA) { need[1] = n != 1; shortcut(1, 1, n, 1, cal, tab, p, zero, need); }
