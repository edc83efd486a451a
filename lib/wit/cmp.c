/* comparison functions: equal exactly when every field is equal (VG_PEEL 8) */
#include "vg.h"
#include "parameters.h"
#include "calibration.h"
#include "tracking_frame_buf.h"
#include "vec_utils.h"
/* names: only the library's string comparisons look at their characters; vg_d(k) is the difference of the k-th pair */
extern char fa0[240], fa1[240], fa2[240], fa3[240], fb0[240], fb1[240], fb2[240], fb3[240];
extern char ca0[240], ca1[240], ca2[240], ca3[240], cb0[240], cb1[240], cb2[240], cb3[240];
int vg_d(int k) __attribute__((const)); /* difference of the k-th pair of names */
int vg_other(const char *a, const char *b) __attribute__((const));
static int pairof(const char *a, const char *b) {
#define PR(k, x, y) if ((a == x && b == y) || (a == y && b == x)) return vg_d(k);
    PR(0, fa0, fb0) PR(1, fa1, fb1) PR(2, fa2, fb2) PR(3, fa3, fb3)
    PR(4, ca0, cb0) PR(5, ca1, cb1) PR(6, ca2, cb2) PR(7, ca3, cb3)
    return vg_other(a, b);
}
int strcmp(const char *a, const char *b) { return pairof(a, b); }
int strncmp(const char *a, const char *b, size_t n) { return n < 239 ? vg_other(a, b) : pairof(a, b); }
#define NAMES char *fa[4] = {fa0, fa1, fa2, fa3}, *fb[4] = {fb0, fb1, fb2, fb3}, *ca[4] = {ca0, ca1, ca2, ca3}, *cb[4] = {cb0, cb1, cb2, cb3}; \
    int i; (void)ca; (void)cb;
static inline void seq(sequence_par *R x, sequence_par *R y, int *R truth, int n, int m) {
    NAMES
    sequence_par a, b; int eq = n == m, r;
    a.first = x->first; a.last = x->last; b.first = y->first; b.last = y->last;
    a.num_cams = n; b.num_cams = m; a.img_base_name = fa; b.img_base_name = fb;
    if (a.first != b.first) eq = 0; if (a.last != b.last) eq = 0;
    if (n == m) for (i = 0; i < n; i++) if (vg_d(i)) eq = 0;
    r = compare_sequence_par(&a, &b);
    truth[0] = (r != 0) == eq;
}
void W_seq_1(sequence_par *R x, sequence_par *R y, int *R truth) { seq(x, y, truth, 1, 1); }
void W_seq_2(sequence_par *R x, sequence_par *R y, int *R truth) { seq(x, y, truth, 2, 2); }
void W_seq_3(sequence_par *R x, sequence_par *R y, int *R truth) { seq(x, y, truth, 3, 3); }
void W_seq_4(sequence_par *R x, sequence_par *R y, int *R truth) { seq(x, y, truth, 4, 4); }
void W_seq_43(sequence_par *R x, sequence_par *R y, int *R truth) { seq(x, y, truth, 4, 3); }
void W_seq_12(sequence_par *R x, sequence_par *R y, int *R truth) { seq(x, y, truth, 1, 2); }
#define EQ(f) if (x->f != y->f) eq = 0
static inline int mmeq(mm_np *R x, mm_np *R y) { int eq = 1; EQ(nlay); EQ(n1); EQ(n3); EQ(n2[0]); EQ(d[0]); return eq; }
#define CP(a, x) a.hp_flag = x->hp_flag; a.allCam_flag = x->allCam_flag; a.tiff_flag = x->tiff_flag; a.imx = x->imx; a.imy = x->imy; \
    a.pix_x = x->pix_x; a.pix_y = x->pix_y; a.chfield = x->chfield;
static inline void ctl(control_par *R x, control_par *R y, mm_np *R p, mm_np *R q, int *R truth, int n, int m) {
    NAMES
    control_par a, b; int eq = n == m, r;
    CP(a, x) CP(b, y)
    a.num_cams = n; b.num_cams = m; a.img_base_name = fa; b.img_base_name = fb; a.cal_img_base_name = ca; b.cal_img_base_name = cb;
    a.mm = p; b.mm = q;
    EQ(hp_flag); EQ(allCam_flag); EQ(tiff_flag); EQ(imx); EQ(imy); EQ(pix_x); EQ(pix_y); EQ(chfield);
    if (!mmeq(p, q)) eq = 0;
    if (n == m) for (i = 0; i < n; i++) { if (vg_d(i)) eq = 0; if (vg_d(4 + i)) eq = 0; }
    r = compare_control_par(&a, &b);
    truth[0] = (r != 0) == eq;
}
void W_ctl_1(control_par *R x, control_par *R y, mm_np *R p, mm_np *R q, int *R truth) { ctl(x, y, p, q, truth, 1, 1); }
void W_ctl_2(control_par *R x, control_par *R y, mm_np *R p, mm_np *R q, int *R truth) { ctl(x, y, p, q, truth, 2, 2); }
void W_ctl_4(control_par *R x, control_par *R y, mm_np *R p, mm_np *R q, int *R truth) { ctl(x, y, p, q, truth, 4, 4); }
void W_ctl_34(control_par *R x, control_par *R y, mm_np *R p, mm_np *R q, int *R truth) { ctl(x, y, p, q, truth, 3, 4); }
void W_ctl_21(control_par *R x, control_par *R y, mm_np *R p, mm_np *R q, int *R truth) { ctl(x, y, p, q, truth, 2, 1); }
void W_mm(mm_np *R x, mm_np *R y, int *R truth) { truth[0] = (compare_mm_np(x, y) != 0) == mmeq(x, y); }
#define ALL(f, n) for (i = 0; i < n; i++) EQ(f[i]);
#define BEGIN int i, eq = 1, r; (void)i;
#define END(f) r = f(x, y); truth[0] = (r != 0) == eq;
void W_track(track_par *R x, track_par *R y, int *R truth) { BEGIN
    EQ(dacc); EQ(dangle); EQ(dvxmax); EQ(dvxmin); EQ(dvymax); EQ(dvymin); EQ(dvzmax); EQ(dvzmin); EQ(dsumg); EQ(dn); EQ(dnx); EQ(dny); EQ(add);
    END(compare_track_par) }
void W_volume(volume_par *R x, volume_par *R y, int *R truth) { BEGIN
    ALL(X_lay, 2) ALL(Zmin_lay, 2) ALL(Zmax_lay, 2) EQ(cn); EQ(cnx); EQ(cny); EQ(csumg); EQ(eps0); EQ(corrmin);
    END(compare_volume_par) }
void W_target_par(target_par *R x, target_par *R y, int *R truth) { BEGIN
    EQ(discont); ALL(gvthres, 4) EQ(nnmin); EQ(nnmax); EQ(nxmin); EQ(nxmax); EQ(nymin); EQ(nymax); EQ(sumg_min); EQ(cr_sz);
    END(compare_target_par) }
void W_exterior(Exterior *R x, Exterior *R y, int *R truth) { BEGIN
    EQ(x0); EQ(y0); EQ(z0); EQ(omega); EQ(phi); EQ(kappa); ALL(dm[0], 3) ALL(dm[1], 3) ALL(dm[2], 3)
    END(compare_exterior) }
void W_interior(Interior *R x, Interior *R y, int *R truth) { BEGIN
    EQ(xh); EQ(yh); EQ(cc);
    END(compare_interior) }
void W_glass(Glass *R x, Glass *R y, int *R truth) { BEGIN
    EQ(vec_x); EQ(vec_y); EQ(vec_z);
    END(compare_glass) }
void W_addpar(ap_52 *R x, ap_52 *R y, int *R truth) { BEGIN
    EQ(k1); EQ(k2); EQ(k3); EQ(p1); EQ(p2); EQ(scx); EQ(she);
    END(compare_addpar) }
void W_calib(Calibration *R x, Calibration *R y, int *R truth) { BEGIN
    EQ(ext_par.x0); EQ(ext_par.y0); EQ(ext_par.z0); EQ(ext_par.omega); EQ(ext_par.phi); EQ(ext_par.kappa); ALL(ext_par.dm[0], 3) ALL(ext_par.dm[1], 3) ALL(ext_par.dm[2], 3)
    EQ(int_par.xh); EQ(int_par.yh); EQ(int_par.cc); EQ(glass_par.vec_x); EQ(glass_par.vec_y); EQ(glass_par.vec_z); EQ(added_par.k1); EQ(added_par.k2); EQ(added_par.k3); EQ(added_par.p1); EQ(added_par.p2); EQ(added_par.scx); EQ(added_par.she);
    END(compare_calib) }
void W_target(target *R x, target *R y, int *R truth) { BEGIN
    EQ(pnr); EQ(x); EQ(y); EQ(n); EQ(nx); EQ(ny); EQ(sumg); EQ(tnr);
    END(compare_targets) }
void W_corres(corres *R x, corres *R y, int *R truth) { BEGIN
    EQ(nr); ALL(p, 4)
    END(compare_corres) }
void W_path(P *R x, P *R y, int *R truth) { BEGIN
    EQ(prev); EQ(next); EQ(prio); EQ(finaldecis); EQ(inlist); ALL(x, 3) ALL(decis, POSI) ALL(linkdecis, POSI)
    END(compare_path_info) }
void W_vec(const double *R u, const double *R v, int *R truth) {
    vec3d a, b; int i, eq = 1; for (i = 0; i < 3; i++) { a[i] = u[i]; b[i] = v[i]; if (a[i] != b[i]) eq = 0; }
    truth[0] = (vec_cmp(a, b) != 0) == eq;
}
