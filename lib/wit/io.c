/* file formats: what each reader assigns and each writer emits, value by value (irdump -io) */
#include "vg.h"
#include <stdio.h>
#include <stdlib.h>
#include "calibration.h"
#include "parameters.h"
#include "orientation.h"
#include "sortgrid.h"
#include "tracking_frame_buf.h"
double vg_in_double(double file, int k) __attribute__((const));
int vg_in_i32(double file, int k) __attribute__((const));
double vg_in_str(double file, int k) __attribute__((const));
void vg_want(double file, int k, double v, int decimals);
void vg_total(double file, int n);
#define NNvoid __attribute__((nonnull)) void
#define TOK(s) (*(double *)(s))
#define D(k) vg_in_double(f, k)
#define I(k) vg_in_i32(f, k)
#define S(k) vg_in_str(f, k)
#define EQ(k, a, b) zero[k] = (a) - (b)

void W_sequence_par(char *R fn, double *R zero) {
    double f = TOK(fn);
    sequence_par *p = read_sequence_par(fn, 2);
    EQ(0, TOK(p->img_base_name[0]), S(0)); EQ(1, TOK(p->img_base_name[1]), S(1));
    EQ(2, p->first, I(2)); EQ(3, p->last, I(3)); EQ(4, p->num_cams, 2);
    vg_total(f, 4);
}
void W_track_par(char *R fn, double *R zero) {
    double f = TOK(fn);
    track_par *p = read_track_par(fn);
    EQ(0, p->dvxmin, D(0)); EQ(1, p->dvxmax, D(1)); EQ(2, p->dvymin, D(2)); EQ(3, p->dvymax, D(3));
    EQ(4, p->dvzmin, D(4)); EQ(5, p->dvzmax, D(5)); EQ(6, p->dangle, D(6)); EQ(7, p->dacc, D(7)); EQ(8, p->add, I(8));
    EQ(9, p->dsumg, 0); EQ(10, p->dn, 0); EQ(11, p->dnx, 0); EQ(12, p->dny, 0);
    vg_total(f, 9);
}
void W_volume_par(char *R fn, double *R zero) {
    double f = TOK(fn);
    volume_par *p = read_volume_par(fn);
    EQ(0, p->X_lay[0], D(0)); EQ(1, p->Zmin_lay[0], D(1)); EQ(2, p->Zmax_lay[0], D(2));
    EQ(3, p->X_lay[1], D(3)); EQ(4, p->Zmin_lay[1], D(4)); EQ(5, p->Zmax_lay[1], D(5));
    EQ(6, p->cnx, D(6)); EQ(7, p->cny, D(7)); EQ(8, p->cn, D(8)); EQ(9, p->csumg, D(9)); EQ(10, p->corrmin, D(10)); EQ(11, p->eps0, D(11));
    vg_total(f, 12);
}
void W_control_par_n2(char *R fn, double *R zero) {
    double f = TOK(fn);
    control_par *p = read_control_par(fn);
    EQ(0, p->num_cams, 2);
    EQ(1, TOK(p->img_base_name[0]), S(1)); EQ(2, TOK(p->cal_img_base_name[0]), S(2));
    EQ(3, TOK(p->img_base_name[1]), S(3)); EQ(4, TOK(p->cal_img_base_name[1]), S(4));
    EQ(5, p->hp_flag, I(5)); EQ(6, p->allCam_flag, I(6)); EQ(7, p->tiff_flag, I(7)); EQ(8, p->imx, I(8)); EQ(9, p->imy, I(9));
    EQ(10, p->pix_x, D(10)); EQ(11, p->pix_y, D(11)); EQ(12, p->chfield, I(12));
    EQ(13, p->mm->n1, D(13)); EQ(14, p->mm->n2[0], D(14)); EQ(15, p->mm->n3, D(15)); EQ(16, p->mm->d[0], D(16)); EQ(17, p->mm->nlay, 1);
    vg_total(f, 17);
}
void W_target_par(char *R fn, double *R zero) {
    double f = TOK(fn);
    target_par *p = read_target_par(fn);
    EQ(0, p->gvthres[0], I(0)); EQ(1, p->gvthres[1], I(1)); EQ(2, p->gvthres[2], I(2)); EQ(3, p->gvthres[3], I(3)); EQ(4, p->discont, I(4));
    EQ(5, p->nnmin, I(5)); EQ(6, p->nnmax, I(6)); EQ(7, p->nxmin, I(7)); EQ(8, p->nxmax, I(8)); EQ(9, p->nymin, I(9)); EQ(10, p->nymax, I(10));
    EQ(11, p->sumg_min, I(11)); EQ(12, p->cr_sz, I(12));
    vg_total(f, 13);
}
#define WI(k, v) vg_want(f, k, v, -1)
#define WF(k, v, d) vg_want(f, k, v, d)
void W_write_target_par(char *R fn, target_par *R p) {
    double f = TOK(fn);
    write_target_par(p, fn);
    WI(0, p->gvthres[0]); WI(1, p->gvthres[1]); WI(2, p->gvthres[2]); WI(3, p->gvthres[3]); WI(4, p->discont);
    WI(5, p->nnmin); WI(6, p->nnmax); WI(7, p->nxmin); WI(8, p->nxmax); WI(9, p->nymin); WI(10, p->nymax);
    WI(11, p->sumg_min); WI(12, p->cr_sz);
    vg_total(f, 13);
}
void W_orient_par(char *R fn, double *R zero) {
    double f = TOK(fn);
    orient_par *p = read_orient_par(fn);
    EQ(0, p->useflag, I(0)); EQ(1, p->ccflag, I(1)); EQ(2, p->xhflag, I(2)); EQ(3, p->yhflag, I(3)); EQ(4, p->k1flag, I(4)); EQ(5, p->k2flag, I(5));
    EQ(6, p->k3flag, I(6)); EQ(7, p->p1flag, I(7)); EQ(8, p->p2flag, I(8)); EQ(9, p->scxflag, I(9)); EQ(10, p->sheflag, I(10)); EQ(11, p->interfflag, I(11));
    vg_total(f, 12);
}
void W_sortgrid_par(char *R fn, double *R zero) {
    double f = TOK(fn);
    EQ(0, read_sortgrid_par(fn), I(0));
    vg_total(f, 1);
}


void W_read_ori(char *R fn, char *R an, Exterior *R ex, Interior *R in, Glass *R g, ap_52 *R ap, double *R zero) {
    double f = TOK(fn), a = TOK(an);
    int i, ok = read_ori(ex, in, g, fn, ap, an, NULL);
    EQ(0, ok, 1);
    EQ(1, ex->x0, D(0)); EQ(2, ex->y0, D(1)); EQ(3, ex->z0, D(2)); EQ(4, ex->omega, D(3)); EQ(5, ex->phi, D(4)); EQ(6, ex->kappa, D(5));
    for (i = 0; i < 9; i++) EQ(7 + i, ex->dm[i / 3][i % 3], D(6 + i));
    EQ(16, in->xh, D(15)); EQ(17, in->yh, D(16)); EQ(18, in->cc, D(17));
    EQ(19, g->vec_x, D(18)); EQ(20, g->vec_y, D(19)); EQ(21, g->vec_z, D(20));
    vg_total(f, 21);
    f = a;
    EQ(22, ap->k1, D(0)); EQ(23, ap->k2, D(1)); EQ(24, ap->k3, D(2)); EQ(25, ap->p1, D(3)); EQ(26, ap->p2, D(4)); EQ(27, ap->scx, D(5)); EQ(28, ap->she, D(6));
    vg_total(f, 7);
}
void W_read_ori_default(char *R fn, Exterior *R ex, Interior *R in, Glass *R g, ap_52 *R ap, double *R zero) {
    int ok = read_ori(ex, in, g, fn, ap, NULL, NULL);
    EQ(0, ok, 1);
    EQ(1, ap->k1, 0); EQ(2, ap->k2, 0); EQ(3, ap->k3, 0); EQ(4, ap->p1, 0); EQ(5, ap->p2, 0); EQ(6, ap->scx, 1); EQ(7, ap->she, 0);
}
static inline void ori_out(double f, Exterior *ex, Interior *in, Glass *g) {
    int i;
    WF(0, ex->x0, 8); WF(1, ex->y0, 8); WF(2, ex->z0, 8); WF(3, ex->omega, 8); WF(4, ex->phi, 8); WF(5, ex->kappa, 8);
    for (i = 0; i < 9; i++) WF(6 + i, ex->dm[i / 3][i % 3], 7);
    WF(15, in->xh, 4); WF(16, in->yh, 4); WF(17, in->cc, 4);
    WF(18, g->vec_x, 15); WF(19, g->vec_y, 15); WF(20, g->vec_z, 15);
    vg_total(f, 21);
}
static inline void add_out(double f, ap_52 *ap) {
    WF(0, ap->k1, 8); WF(1, ap->k2, 8); WF(2, ap->k3, 8); WF(3, ap->p1, 8); WF(4, ap->p2, 8); WF(5, ap->scx, 8); WF(6, ap->she, 8);
    vg_total(f, 7);
}
void W_write_ori(char *R fn, char *R an, Exterior *R ex, Interior *R in, Glass *R g, ap_52 *R ap, double *R zero) {
    double f = TOK(fn), a = TOK(an);
    EQ(0, write_ori(*ex, *in, *g, *ap, fn, an), 1);
    ori_out(f, ex, in, g);
    add_out(a, ap);
}
void W_write_calibration(char *R fn, char *R an, Calibration *R c, double *R zero) {
    double f = TOK(fn), a = TOK(an);
    EQ(0, write_calibration(c, fn, an), 1);
    ori_out(f, &c->ext_par, &c->int_par, &c->glass_par);
    add_out(a, &c->added_par);
}
void W_read_calibration(char *R fn, char *R an, double *R zero) {
    double f = TOK(fn), a = TOK(an);
    Calibration *c = read_calibration(fn, an, NULL);
    Exterior *ex = &c->ext_par; Interior *in = &c->int_par; Glass *g = &c->glass_par; ap_52 *ap = &c->added_par;
    EQ(1, ex->x0, D(0)); EQ(2, ex->y0, D(1)); EQ(3, ex->z0, D(2)); EQ(4, ex->omega, D(3)); EQ(5, ex->phi, D(4)); EQ(6, ex->kappa, D(5));
    EQ(16, in->xh, D(15)); EQ(17, in->yh, D(16)); EQ(18, in->cc, D(17));
    EQ(19, g->vec_x, D(18)); EQ(20, g->vec_y, D(19)); EQ(21, g->vec_z, D(20));
    vg_total(f, 21);
    f = a;
    EQ(22, ap->k1, D(0)); EQ(23, ap->k2, D(1)); EQ(24, ap->k3, D(2)); EQ(25, ap->p1, D(3)); EQ(26, ap->p2, D(4)); EQ(27, ap->scx, D(5)); EQ(28, ap->she, D(6));
    EQ(29, c->mmlut.data == NULL, 1);
}
/* targets */
static inline double tname(char *base, int frame) {
    char nm[300];
    if (frame > 0) snprintf(nm, 300, "%s%04d_targets", base, frame); else snprintf(nm, 300, "%s_targets", base);
    return TOK(nm);
}
static inline void targets_in(char *base, int frame, target *t, double *zero) {
    double f = tname(base, frame);
    int i;
    EQ(0, read_targets(t, base, frame), 2);
    for (i = 0; i < 2; i++) {
        EQ(8 * i + 1, t[i].pnr, I(8 * i + 1)); EQ(8 * i + 2, t[i].x, D(8 * i + 2)); EQ(8 * i + 3, t[i].y, D(8 * i + 3)); EQ(8 * i + 4, t[i].n, I(8 * i + 4));
        EQ(8 * i + 5, t[i].nx, I(8 * i + 5)); EQ(8 * i + 6, t[i].ny, I(8 * i + 6)); EQ(8 * i + 7, t[i].sumg, I(8 * i + 7)); EQ(8 * i + 8, t[i].tnr, I(8 * i + 8));
    }
    vg_total(f, 17);
}
void W_read_targets_n2(char *R base, target *R t, double *R zero) { targets_in(base, 7, t, zero); }
void W_read_targets_first_n2(char *R base, target *R t, double *R zero) { targets_in(base, 1, t, zero); }
void W_read_targets_big_n2(char *R base, target *R t, double *R zero) { targets_in(base, 10001, t, zero); }
void W_read_targets_0_n2(char *R base, target *R t, double *R zero) { targets_in(base, 0, t, zero); }
void W_read_targets_neg_n2(char *R base, target *R t, double *R zero) { targets_in(base, -3, t, zero); }
static inline void targets_out(char *base, int frame, target *t, int n, double *zero) {
    double f = tname(base, frame);
    int i;
    EQ(0, write_targets(t, n, base, frame), 1);
    WI(0, n);
    for (i = 0; i < n; i++) {
        WI(8 * i + 1, t[i].pnr); WF(8 * i + 2, t[i].x, 4); WF(8 * i + 3, t[i].y, 4); WI(8 * i + 4, t[i].n);
        WI(8 * i + 5, t[i].nx); WI(8 * i + 6, t[i].ny); WI(8 * i + 7, t[i].sumg); WI(8 * i + 8, t[i].tnr);
    }
    vg_total(f, 8 * n + 1);
}
void W_write_targets(char *R base, target *R t, double *R zero) { targets_out(base, 7, t, 2, zero); }
void W_write_targets_first(char *R base, target *R t, double *R zero) { targets_out(base, 1, t, 3, zero); }
void W_write_targets_big(char *R base, target *R t, double *R zero) { targets_out(base, 10001, t, 1, zero); }
void W_write_targets_0(char *R base, target *R t, double *R zero) { targets_out(base, 0, t, 0, zero); }
void W_write_targets_neg(char *R base, target *R t, double *R zero) { targets_out(base, -3, t, 2, zero); }
/* path frames */
static inline double pname(char *base, int frame) { char nm[300]; snprintf(nm, 300, "%s.%d", base, frame); return TOK(nm); }
static inline void path_out(corres *c, P *p, int n, char *cb, char *lb, char *pb, int frame, double *zero) {
    double f;
    int i;
    EQ(0, write_path_frame(c, p, n, cb, lb, pb, frame), 1);
    f = pname(cb, frame);
    WI(0, n);
    for (i = 0; i < n; i++) {
        WI(8 * i + 1, i + 1); WF(8 * i + 2, p[i].x[0], 3); WF(8 * i + 3, p[i].x[1], 3); WF(8 * i + 4, p[i].x[2], 3);
        WI(8 * i + 5, c[i].p[0]); WI(8 * i + 6, c[i].p[1]); WI(8 * i + 7, c[i].p[2]); WI(8 * i + 8, c[i].p[3]);
    }
    vg_total(f, 8 * n + 1);
    f = pname(lb, frame);
    WI(0, n);
    for (i = 0; i < n; i++) {
        WI(5 * i + 1, p[i].prev); WI(5 * i + 2, p[i].next); WF(5 * i + 3, p[i].x[0], 3); WF(5 * i + 4, p[i].x[1], 3); WF(5 * i + 5, p[i].x[2], 3);
    }
    vg_total(f, 5 * n + 1);
    if (!pb) return;
    f = pname(pb, frame);
    WI(0, n);
    for (i = 0; i < n; i++) {
        WI(6 * i + 1, p[i].prev); WI(6 * i + 2, p[i].next); WF(6 * i + 3, p[i].x[0], 3); WF(6 * i + 4, p[i].x[1], 3); WF(6 * i + 5, p[i].x[2], 3);
        WI(6 * i + 6, p[i].prio);
    }
    vg_total(f, 6 * n + 1);
}
NNvoid W_write_path(corres *R c, P *R p, char *R cb, char *R lb, char *R pb, double *R zero) { path_out(c, p, 2, cb, lb, pb, 7, zero); }
NNvoid W_write_path_noprio(corres *R c, P *R p, char *R cb, char *R lb, double *R zero) { path_out(c, p, 2, cb, lb, NULL, 10002, zero); }
static inline void path_in(corres *c, P *p, int n, char *cb, char *lb, char *pb, int frame, double *zero) {
    double f;
    int i, k = 1, j;
    EQ(0, read_path_frame(c, p, cb, lb, pb, frame), n);
    f = pname(cb, frame);
    for (i = 0; i < n; i++) {
        EQ(k, p[i].x[0], D(8 * i + 2)); k++; EQ(k, p[i].x[1], D(8 * i + 3)); k++; EQ(k, p[i].x[2], D(8 * i + 4)); k++;
        for (j = 0; j < 4; j++) { EQ(k, c[i].p[j], I(8 * i + 5 + j)); k++; }
        EQ(k, c[i].nr, i + 1); k++;
        EQ(k, p[i].inlist, 0); k++; EQ(k, p[i].finaldecis, 1000000.0); k++;
        for (j = 0; j < POSI; j++) { EQ(k, p[i].decis[j], 0); k++; EQ(k, p[i].linkdecis[j], -999); k++; }
    }
    vg_total(f, 8 * n + 1);
    if (lb) {
        f = pname(lb, frame);
        for (i = 0; i < n; i++) { EQ(k, p[i].prev, I(5 * i + 1)); k++; EQ(k, p[i].next, I(5 * i + 2)); k++; }
        vg_total(f, 5 * n + 1);
    } else
        for (i = 0; i < n; i++) { EQ(k, p[i].prev, PREV_NONE); k++; EQ(k, p[i].next, NEXT_NONE); k++; }
    if (pb) {
        f = pname(pb, frame);
        for (i = 0; i < n; i++) { EQ(k, p[i].prio, I(6 * i + 6)); k++; }
        vg_total(f, 6 * n + 1);
    } else
        for (i = 0; i < n; i++) { EQ(k, p[i].prio, 4); k++; }
}
NNvoid W_read_path_f2(corres *R c, P *R p, char *R cb, char *R lb, char *R pb, double *R zero) { path_in(c, p, 2, cb, lb, pb, 7, zero); }
NNvoid W_read_path_corr_f1(corres *R c, P *R p, char *R cb, double *R zero) { path_in(c, p, 1, cb, NULL, NULL, 10002, zero); }
NNvoid W_read_path_link_f2(corres *R c, P *R p, char *R cb, char *R lb, double *R zero) { path_in(c, p, 2, cb, lb, NULL, 12, zero); }
void W_calblock_e2(char *R fn, double *R zero) {
    double f = TOK(fn);
    int n, i;
    vec3d *p = read_calblock(&n, fn);
    EQ(0, n, 2);
    for (i = 0; i < 6; i++) EQ(1 + i, p[i / 3][i % 3], D(i / 3 * 4 + 1 + i % 3));
}
/* whole frames: each camera's targets go to and come from that camera's file */
#define FRAME(F) frame F; target *tg[2]; int nt[2] = {0, 0}; corres c[4]; P p[4]; char *names[2]; \
    tg[0] = t0; tg[1] = t1; names[0] = b0; names[1] = b1; \
    F.targets = tg; F.num_targets = nt; F.correspond = cc; F.path_info = pp; F.num_cams = 2; F.max_targets = 4; F.num_parts = 0
#define FARGS corres *R cc, P *R pp, target *R t0, target *R t1, char *R b0, char *R b1, char *R cb, char *R lb, char *R pb, double *R zero
NNvoid W_write_frame(FARGS) {
    double f;
    int i, k, g;
    FRAME(fr);
    nt[0] = 1; nt[1] = 2; fr.num_parts = 1;
    g = write_frame(&fr, cb, lb, pb, names, 7);
    EQ(0, g, 1);
    f = pname(cb, 7); WI(0, 1); WF(2, pp[0].x[0], 3); WI(5, cc[0].p[0]); vg_total(f, 9);
    f = pname(lb, 7); WI(0, 1); WI(1, pp[0].prev); WI(2, pp[0].next); vg_total(f, 6);
    f = pname(pb, 7); WI(0, 1); WI(6, pp[0].prio); vg_total(f, 7);
    f = tname(b0, 7); WI(0, 1); WI(1, t0[0].pnr); WF(2, t0[0].x, 4); vg_total(f, 9);
    f = tname(b1, 7); WI(0, 2); WI(1, t1[0].pnr); WF(2, t1[0].x, 4); WI(9, t1[1].pnr); vg_total(f, 17);
}
NNvoid W_read_frame_a1(FARGS) {
    double f;
    int i;
    FRAME(fr);
    EQ(0, read_frame(&fr, cb, lb, pb, names, 7), 1);
    EQ(1, fr.num_parts, 1); 
    f = pname(cb, 7); EQ(2, pp[0].x[0], D(2)); EQ(3, cc[0].p[3], I(8));
    f = pname(lb, 7); EQ(4, pp[0].prev, I(1)); EQ(5, pp[0].next, I(2));
    f = pname(pb, 7); EQ(6, pp[0].prio, I(6));
    f = tname(b0, 7); EQ(7, nt[0], 1); EQ(8, t0[0].x, D(2));
    f = tname(b1, 7); EQ(9, nt[1], 1); EQ(10, t1[0].x, D(2));
}
/* the frame buffer on disk: reads go to the last frame, writes come from the first, with or without links */
#define FB framebuf b; frame *ring[3], f0, f1; FRAME(fr); f0 = fr; f1 = fr; ring[0] = &f0; ring[1] = &f1; ring[2] = &fr; \
    b.base.buf = ring; b.base._ring_vec = ring; b.base.buf_len = 3; b.base.num_cams = 2; \
    b.corres_file_base = cb; b.linkage_file_base = lb; b.prio_file_base = pb; b.target_file_base = names
NNvoid W_fb_read_a1(FARGS) {
    double f;
    FB;
    EQ(0, fb_disk_read_frame_at_end(&b.base, 7, 1), 1);
    EQ(1, fr.num_parts, 1); EQ(2, f0.num_parts, 0); EQ(3, f1.num_parts, 0);
    f = pname(cb, 7); EQ(4, pp[0].x[0], D(2)); EQ(5, cc[0].p[3], I(8));
    f = pname(lb, 7); EQ(6, pp[0].prev, I(1)); EQ(7, pp[0].next, I(2));
    f = pname(pb, 7); EQ(8, pp[0].prio, I(6));
    f = tname(b0, 7); EQ(9, t0[0].x, D(2));
    f = tname(b1, 7); EQ(10, t1[0].x, D(2));
}
NNvoid W_fb_read_nolinks_a1(FARGS) {
    double f;
    FB;
    EQ(0, fb_disk_read_frame_at_end(&b.base, 7, 0), 1);
    EQ(1, fr.num_parts, 1);
    f = pname(cb, 7); EQ(2, pp[0].x[0], D(2));
    EQ(3, pp[0].prev, PREV_NONE); EQ(4, pp[0].next, NEXT_NONE); EQ(5, pp[0].prio, 4);
    f = tname(b1, 7); EQ(6, t1[0].x, D(2));
    f = pname(lb, 7); vg_total(f, 0);
    f = pname(pb, 7); vg_total(f, 0);
}
NNvoid W_fb_write(FARGS) {
    double f;
    FB;
    f0.num_parts = 1; f1.num_parts = 2; fr.num_parts = 2; nt[0] = 1; nt[1] = 1;
    EQ(0, fb_disk_write_frame_from_start(&b.base, 7), 1);
    f = pname(cb, 7); WI(0, 1); WF(2, pp[0].x[0], 3); WI(5, cc[0].p[0]); vg_total(f, 9);
    f = pname(lb, 7); WI(0, 1); WI(1, pp[0].prev); WI(2, pp[0].next); vg_total(f, 6);
    f = pname(pb, 7); WI(0, 1); WI(6, pp[0].prio); vg_total(f, 7);
    f = tname(b0, 7); WI(1, t0[0].pnr); vg_total(f, 9);
    f = tname(b1, 7); WI(1, t1[0].pnr); vg_total(f, 9);
}
void W_fb_init(char *R cb, char *R lb, char *R pb, char **R tb, double *R zero) {
    framebuf b;
    int i;
    fb_init(&b, 3, 2, 5, cb, lb, pb, tb);
    EQ(0, b.base.buf_len, 3); EQ(1, b.base.num_cams, 2); EQ(2, b.base.buf == b.base._ring_vec, 1);
    EQ(3, b.corres_file_base == cb, 1); EQ(4, b.linkage_file_base == lb, 1); EQ(5, b.prio_file_base == pb, 1); EQ(6, b.target_file_base == tb, 1);
    for (i = 0; i < 3; i++) {
        EQ(7 + 4 * i, b.base._ring_vec[i] == b.base._ring_vec[i + 3], 1); EQ(8 + 4 * i, b.base._ring_vec[i]->num_cams, 2);
        EQ(9 + 4 * i, b.base._ring_vec[i]->max_targets, 5); EQ(10 + 4 * i, b.base._ring_vec[i]->num_parts, 0);
    }
    EQ(20, b.base._ring_vec[0] == b.base._ring_vec[1], 0); EQ(21, b.base._ring_vec[0] == b.base._ring_vec[2], 0);
}
/* distortion parameters: the given file, else the fallback, else the neutral values */
static inline void addp(double f, ap_52 *ap, double *zero) {
    EQ(1, ap->k1, D(0)); EQ(2, ap->k2, D(1)); EQ(3, ap->k3, D(2)); EQ(4, ap->p1, D(3)); EQ(5, ap->p2, D(4)); EQ(6, ap->scx, D(5)); EQ(7, ap->she, D(6));
    vg_total(f, 7);
}
#define ORI char *R fn, char *R an, char *R fb, Exterior *R ex, Interior *R in, Glass *R g, ap_52 *R ap, double *R zero
NNvoid W_read_ori_both(ORI) { zero[0] = read_ori(ex, in, g, fn, ap, an, fb) - 1; addp(TOK(an), ap, zero); vg_total(TOK(fb), 0); }
NNvoid W_read_ori_fallback_o2(ORI) { zero[0] = read_ori(ex, in, g, fn, ap, an, fb) - 1; addp(TOK(fb), ap, zero); vg_total(TOK(an), 0); }
NNvoid W_read_ori_noadd(ORI) { zero[0] = read_ori(ex, in, g, fn, ap, NULL, fb) - 1; addp(TOK(fb), ap, zero); }
static inline void neutral(ap_52 *ap, double *zero) {
    EQ(1, ap->k1, 0); EQ(2, ap->k2, 0); EQ(3, ap->k3, 0); EQ(4, ap->p1, 0); EQ(5, ap->p2, 0); EQ(6, ap->scx, 1); EQ(7, ap->she, 0);
}
NNvoid W_read_ori_none_o23(ORI) { zero[0] = read_ori(ex, in, g, fn, ap, an, fb) - 1; neutral(ap, zero); }
NNvoid W_read_ori_nofb_o2(ORI) { zero[0] = read_ori(ex, in, g, fn, ap, an, NULL) - 1; neutral(ap, zero); }
