/* candidates of a particle in the next frame, and particles made from unused targets (VG_PEEL 6) */
#include "vg.h"
#include <stdlib.h>
#include "track.h"
#include "tracking_run.h"
#include "orientation.h"
#include "trafo.h"
#include "imgcoord.h"
double vg_pix(int what, double X, double Y, double Z, double id) __attribute__((const));
double vg_met(int what, double x, double y, double pix) __attribute__((const));
double vg_flat(int what, double x, double y, double id, double tol) __attribute__((const));
double vg_quad(int what, int cam, double X, double Y, double Z, double v, double imx) __attribute__((const));
static foundpix kept[17]; /* the list is returned here, from a block of 8 or 12 entries */
static int total;
void *realloc(void *p, size_t n) { int i; for (i = 0; i < total; i++) kept[i] = ((foundpix *) p)[i]; return kept; }
void point_to_pixel(vec2d o, vec3d p, Calibration *cal, control_par *cpar) {
    o[0] = vg_pix(0, p[0], p[1], p[2], cal->int_par.cc + cpar->pix_x); o[1] = vg_pix(1, p[0], p[1], p[2], cal->int_par.cc + cpar->pix_x);
}
void pixel_to_metric(double *x, double *y, double xp, double yp, control_par *cp) { *x = vg_met(0, xp, yp, cp->pix_x); *y = vg_met(1, xp, yp, cp->pix_x); }
void dist_to_flat(double x, double y, Calibration *cal, double *u, double *v, double tol) {
    *u = vg_flat(0, x, y, cal->int_par.cc, tol); *v = vg_flat(1, x, y, cal->int_par.cc, tol);
}
void searchquader(vec3d p, double xr[4], double xl[4], double yd[4], double yu[4], track_par *t, control_par *cp, Calibration **cal) {
    int i;
    for (i = 0; i < cp->num_cams; i++) {
        double id = cal[i]->int_par.cc;
        xr[i] = vg_quad(0, id, p[0], p[1], p[2], t->dvxmin, cp->pix_x); xl[i] = vg_quad(1, id, p[0], p[1], p[2], t->dvxmin, cp->pix_x);
        yd[i] = vg_quad(2, id, p[0], p[1], p[2], t->dvxmin, cp->pix_x); yu[i] = vg_quad(3, id, p[0], p[1], p[2], t->dvxmin, cp->pix_x);
    }
}
/* targets 0..3 are searched; the window asked for is noted in targets 4..6 and the answer is read from target 7 */
static int asked(target *t, int num, double cx, double cy, double dl, double dr, double du, double dd, control_par *cp) {
    t[4].x = cx; t[4].y = cy; t[5].x = dl; t[5].y = dr; t[6].x = du; t[6].y = dd; t[4].n = num; t[5].n = cp->num_cams; t[6].n++;
    return t[7].n;
}
int candsearch_in_pix(target *t, int num, double cx, double cy, double dl, double dr, double du, double dd, int p[4], control_par *cp) {
    int i, n = asked(t, num, cx, cy, dl, dr, du, dd, cp);
    for (i = 0; i < 4; i++) p[i] = i < n ? 3 - i : -999;
    return n;
}
int candsearch_in_pix_rest(target *t, int num, double cx, double cy, double dl, double dr, double du, double dd, int p[], control_par *cp) {
    int n = asked(t, num, cx, cy, dl, dr, du, dd, cp);
    p[0] = n ? t[7].nx : -999;
    return n;
}
int assess_new_position(vec3d pos, vec2d targ_pos[], int cand_inds[][MAX_CANDS], frame *frm, tracking_run *run);
void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]);
void register_closest_neighbs(target *targets, int num_targets, int cam, double cent_x, double cent_y, double dl, double dr, double du, double dd,
    foundpix *reg, control_par *cpar);
#define NC 3
typedef struct { tracking_run run; frame fr; P path[4]; corres cor[4]; target tg[NC][8], *tp[NC]; int num[NC]; track_par tpar; control_par cpar; Calibration cal[NC], *cp[NC]; } scene;
static inline void setup(scene *s, int nc, double *xy, int *tnr, double *pv) {
    int i, p;
    s->run.tpar = &s->tpar; s->run.cpar = &s->cpar; s->run.cal = s->cp; s->run.flatten_tol = pv[0]; s->tpar.dvxmin = pv[1]; s->cpar.pix_x = pv[2];
    s->cpar.num_cams = s->fr.num_cams = nc; s->fr.max_targets = 4; s->fr.num_parts = 2; s->fr.path_info = s->path; s->fr.correspond = s->cor;
    s->fr.targets = s->tp; s->fr.num_targets = s->num;
    for (i = 0; i < NC; i++) {
        s->cp[i] = &s->cal[i]; s->cal[i].int_par.cc = i; s->tp[i] = s->tg[i]; s->num[i] = 4 - i;
        for (p = 0; p < 8; p++) { s->tg[i][p].x = xy[16*i + 2*p]; s->tg[i][p].y = xy[16*i + 2*p + 1]; s->tg[i][p].tnr = tnr[8*i + p]; s->tg[i][p].n = 0; s->tg[i][p].nx = 0; }
    }
    for (p = 0; p < 4; p++) { memset(&s->path[p], 0, sizeof(P)); s->path[p].inlist = 7; s->cor[p].nr = 9; for (i = 0; i < 4; i++) s->cor[p].p[i] = 9; }
}
#define ARGS double *R xy, int *R tnr, double *R pv, vec3d pos, double *R zero, int *R truth
/* a new position: in every camera the unused target nearest its projection, within 3 pixels; undistorted metric coordinates */
static inline void assess(double *xy, int *tnr, double *pv, double *pos, double *zero, int *truth, int nc, int f0, int f1, int f2) {
    scene s; vec2d t[4]; int c[4][MAX_CANDS], f[3] = {f0, f1, f2}, i, n, k = 0;
    setup(&s, nc, xy, tnr, pv);
    for (i = 0; i < NC; i++) {
        s.tg[i][7].n = f[i] >= 0; s.tg[i][7].nx = f[i];
        if (f[i] >= 0) { s.tg[i][f[i]].x = 100 + 10*i + f[i]; s.tg[i][f[i]].y = 200 + 10*i + f[i]; } /* no target is at the position that stands for none */
    }
    n = assess_new_position(pos, t, c, &s.fr, &s.run);
    for (i = 0; i < nc; i++) {
        double id = i + pv[2], mx, my;
        zero[8*i] = s.tg[i][4].x - vg_pix(0, pos[0], pos[1], pos[2], id); zero[8*i + 1] = s.tg[i][4].y - vg_pix(1, pos[0], pos[1], pos[2], id);
        zero[8*i + 2] = s.tg[i][5].x - 3; zero[8*i + 3] = s.tg[i][5].y - 3; zero[8*i + 4] = s.tg[i][6].x - 3; zero[8*i + 5] = s.tg[i][6].y - 3;
        truth[3*i] = s.tg[i][4].n == 4 - i; truth[3*i + 1] = s.tg[i][6].n == 1; truth[3*i + 2] = c[i][0] == (f[i] >= 0 ? f[i] : -999);
        if (f[i] >= 0) {
            k++;
            mx = vg_met(0, 100 + 10*i + f[i], 200 + 10*i + f[i], pv[2]); my = vg_met(1, 100 + 10*i + f[i], 200 + 10*i + f[i], pv[2]);
            zero[8*i + 6] = t[i][0] - vg_flat(0, mx, my, i, pv[0]); zero[8*i + 7] = t[i][1] - vg_flat(1, mx, my, i, pv[0]);
        }
    }
    for (i = 0; i < 4; i++) if (i >= nc || f[i] < 0) { zero[8*i + 6] = t[i][0] - COORD_UNUSED; zero[8*i + 7] = t[i][1] - COORD_UNUSED; }
    truth[12] = n == k;
}
void W_assess3(ARGS) { assess(xy, tnr, pv, pos, zero, truth, 3, 2, 0, 1); }
void W_assess2(ARGS) { assess(xy, tnr, pv, pos, zero, truth, 3, 0, -1, 3); }
void W_assess1(ARGS) { assess(xy, tnr, pv, pos, zero, truth, 2, -1, 1, 2); }
void W_assess0(ARGS) { assess(xy, tnr, pv, pos, zero, truth, 3, -1, -1, -1); }
/* a particle is appended with its position, without links, and bound to its targets in both directions */
static inline void append(double *xy, int *tnr, double *pv, double *pos, double *zero, int *truth, int nc, int f0, int f1, int f2) {
    scene s; int c[4][MAX_CANDS], f[3] = {f0, f1, f2}, i, j, n = 0;
    setup(&s, nc, xy, tnr, pv);
    for (i = 0; i < NC; i++) c[i][0] = f[i] >= 0 ? f[i] : PT_UNUSED;
    add_particle(&s.fr, pos, c);
    truth[n++] = s.fr.num_parts == 3; truth[n++] = s.path[2].prev == PREV_NONE && s.path[2].next == NEXT_NONE; truth[n++] = s.path[2].inlist == 0;
    truth[n++] = s.path[2].prio == PRIO_DEFAULT; truth[n++] = s.path[1].inlist == 7 && s.path[3].inlist == 7; truth[n++] = s.cor[2].nr == 2;
    truth[n++] = s.cor[1].nr == 9 && s.cor[3].nr == 9; 
    for (i = 0; i < 3; i++) { zero[i] = s.path[2].x[i] - pos[i]; zero[3 + i] = s.path[1].x[i]; zero[6 + i] = s.path[3].x[i]; }
    for (i = 0; i < nc; i++) {
        truth[n++] = s.cor[2].p[i] == (f[i] >= 0 ? f[i] : CORRES_NONE); truth[n++] = s.cor[1].p[i] == 9 && s.cor[3].p[i] == 9;
        for (j = 0; j < 8; j++) truth[n++] = s.tg[i][j].tnr == (j == f[i] ? 2 : tnr[8*i + j]);
    }
}
void W_append3(ARGS) { append(xy, tnr, pv, pos, zero, truth, 3, 2, 0, 1); }
void W_append2(ARGS) { append(xy, tnr, pv, pos, zero, truth, 3, 1, -1, 3); }
void W_append2b(ARGS) { append(xy, tnr, pv, pos, zero, truth, 3, -1, 0, 0); }
/* the candidates of one camera are registered with the particle they belong to */
static inline void closest(double *xy, int *tnr, double *pv, double *pos, double *zero, int *truth, int cam, int found) {
    scene s; foundpix r[4]; int i, j;
    setup(&s, 3, xy, tnr, pv);
    for (i = 0; i < 4; i++) { r[i].ftnr = -1; r[i].freq = 0; for (j = 0; j < 4; j++) r[i].whichcam[j] = 0; }
    s.tg[cam][7].n = found;
    register_closest_neighbs(s.tg[cam], 4, cam, pv[0], pv[1], pv[2], pv[3], pv[4], pv[5], r, &s.cpar);
    zero[0] = s.tg[cam][4].x - pv[0]; zero[1] = s.tg[cam][4].y - pv[1]; zero[2] = s.tg[cam][5].x - pv[2]; zero[3] = s.tg[cam][5].y - pv[3];
    zero[4] = s.tg[cam][6].x - pv[4]; zero[5] = s.tg[cam][6].y - pv[5]; truth[0] = s.tg[cam][4].n == 4;
    for (i = 0; i < 4; i++) {
        truth[1 + 8*i] = r[i].ftnr == (i < found ? tnr[8*cam + 3 - i] : -1); truth[2 + 8*i] = r[i].freq == 0;
        for (j = 0; j < 4; j++) truth[3 + 8*i + j] = r[i].whichcam[j] == (i < found && j == cam);
    }
}
void W_closest4(ARGS) { closest(xy, tnr, pv, pos, zero, truth, 0, 4); }
void W_closest2(ARGS) { closest(xy, tnr, pv, pos, zero, truth, 2, 2); }
void W_closest0(ARGS) { closest(xy, tnr, pv, pos, zero, truth, 1, 0); }
void W_foundpix(int a, int b, int *R truth) {
    foundpix x[3], y[3]; int i, j;
    for (i = 0; i < 3; i++) { x[i].ftnr = a + i; x[i].freq = b + i; for (j = 0; j < 4; j++) x[i].whichcam[j] = a*i + j; }
    for (i = 0; i < 3; i++) { y[i].ftnr = y[i].freq = 7; for (j = 0; j < 4; j++) y[i].whichcam[j] = 7; }
    copy_foundpix_array(y, x, 2, 3);
    for (i = 0; i < 3; i++) {
        truth[6*i] = y[i].ftnr == (i < 2 ? a + i : 7); truth[6*i + 1] = y[i].freq == (i < 2 ? b + i : 7);
        for (j = 0; j < 4; j++) truth[6*i + 2 + j] = y[i].whichcam[j] == (i < 2 && j < 3 ? a*i + j : 7);
    }
    reset_foundpix_array(x, 2, 3);
    for (i = 0; i < 3; i++) {
        truth[20 + 6*i] = x[i].ftnr == (i < 2 ? -1 : a + i); truth[21 + 6*i] = x[i].freq == (i < 2 ? 0 : b + i);
        for (j = 0; j < 4; j++) truth[22 + 6*i + j] = x[i].whichcam[j] == (i < 2 && j < 3 ? 0 : a*i + j);
    }
}
void W_register(float f, float g, int a, int b, double *R zero, int *R truth) {
    P p; memset(&p, 0, sizeof p);
    register_link_candidate(&p, f, a); register_link_candidate(&p, g, b);
    zero[0] = p.decis[0] - f; zero[1] = p.decis[1] - g; truth[0] = p.linkdecis[0] == a; truth[1] = p.linkdecis[1] == b; truth[2] = p.inlist == 2;
    p.prev = a; p.next = b; p.prio = a; reset_links(&p);
    truth[3] = p.prev == PREV_NONE && p.next == NEXT_NONE && p.prio == PRIO_DEFAULT;
}
/* candidates of all cameras: every particle once, those seen by more cameras first, those of one camera dropped but for the first */
static inline void byfreq(int nc, int n, const int *id, const int *out, int no, int *truth) {
    foundpix p[16]; int i, j, k;
    for (i = 0; i < 16; i++) { p[i].ftnr = -1; p[i].freq = 0; for (j = 0; j < 4; j++) p[i].whichcam[j] = 0; }
    for (i = 0; i < 4*nc; i++) { p[i].ftnr = id[i]; if (id[i] != -1) p[i].whichcam[i/4] = 1; }
    truth[0] = sort_candidates_by_freq(p, nc) == no;
    for (i = 0; i < no; i++) { truth[1 + 2*i] = p[i].ftnr == out[2*i]; truth[2 + 2*i] = p[i].freq == out[2*i + 1]; }
    for (; i < 4*nc; i++) { truth[1 + 2*i] = p[i].ftnr == -1; truth[2 + 2*i] = p[i].freq == 0; }
}
void W_freq_2(int *R truth) { const int id[8] = {5, 7, -1, -1, 7, 9, -1, -1}, o[] = {7, 2}; byfreq(2, 8, id, o, 1, truth); }
void W_freq_2all(int *R truth) { const int id[8] = {5, 7, 3, 8, 7, 8, 5, 3}, o[] = {5, 2, 7, 2, 3, 2, 8, 2}; byfreq(2, 8, id, o, 4, truth); }
void W_freq_2none(int *R truth) { const int id[8] = {5, -1, -1, -1, 7, -1, -1, -1}, o[] = {5, 1}; byfreq(2, 8, id, o, 1, truth); }
void W_freq_2empty(int *R truth) { const int id[8] = {-1, -1, -1, -1, -1, -1, -1, -1}, o[] = {0, 0}; byfreq(2, 8, id, o, 0, truth); }
void W_freq_3(int *R truth) { const int id[12] = {5, 7, -1, -1, 7, 9, 4, -1, 4, 7, -1, -1}, o[] = {7, 3, 4, 2}; byfreq(3, 12, id, o, 2, truth); }
void W_freq_4(int *R truth) { const int id[16] = {1, 2, 3, -1, 2, 3, -1, -1, 3, 2, 6, -1, 6, 0, 2, -1}, o[] = {2, 4, 3, 3, 6, 2}; byfreq(4, 16, id, o, 3, truth); }
/* the search region of every camera is that of the volume center, the search starts at its projection; particles seen by most cameras first */
foundpix *sorted_candidates_in_volume(vec3d center, vec2d center_proj[], frame *frm, tracking_run *run);
static inline void volume(double *xy, int *tnr, double *pv, double *pos, double *zero, int *truth, int nc, const int *id, const int *found, const int *out, int no) {
    scene s; foundpix *w; vec2d pr[4]; int i, j; double q[3] = {pos[0], pos[1], pos[2]}, v = pv[1], x = pv[2];
    setup(&s, nc, xy, tnr, pv);
    for (i = 0; i < nc; i++) {
        for (j = 0; j < 4; j++) s.tg[i][3 - j].tnr = id[4*i + j];
        s.tg[i][7].n = found[i]; pr[i][0] = xy[2*i]; pr[i][1] = xy[2*i + 1];
    }
    total = 4*nc;
    w = sorted_candidates_in_volume(q, pr, &s.fr, &s.run);
    for (i = 0; i < nc; i++) {
        double c = i;
        zero[6*i] = s.tg[i][4].x - xy[2*i]; zero[6*i + 1] = s.tg[i][4].y - xy[2*i + 1];
        zero[6*i + 2] = s.tg[i][5].x - vg_quad(1, c, q[0], q[1], q[2], v, x); zero[6*i + 3] = s.tg[i][5].y - vg_quad(0, c, q[0], q[1], q[2], v, x);
        zero[6*i + 4] = s.tg[i][6].x - vg_quad(3, c, q[0], q[1], q[2], v, x); zero[6*i + 5] = s.tg[i][6].y - vg_quad(2, c, q[0], q[1], q[2], v, x);
        truth[20 + 2*i] = s.tg[i][4].n == 4 - i; truth[21 + 2*i] = s.tg[i][6].n == 1;
    }
    if (no == 0) truth[0] = w == NULL;
    else if (w == NULL) truth[0] = 0;
    else {
        for (i = 0; i < no; i++) { truth[2*i] = w[i].ftnr == out[2*i]; truth[2*i + 1] = w[i].freq == out[2*i + 1]; }
        truth[2*no] = w[no].ftnr == -1;
    }
}
void W_volume2(ARGS) { const int id[8] = {5, 7, 9, 9, 7, 5, 9, 9}, f[2] = {2, 2}, o[] = {5, 2, 7, 2}; volume(xy, tnr, pv, pos, zero, truth, 2, id, f, o, 2); }
void W_volume3(ARGS) { const int id[12] = {1, 2, 3, 9, 2, 3, 9, 9, 3, 4, 5, 6}, f[3] = {3, 2, 4}, o[] = {3, 3, 2, 2}; volume(xy, tnr, pv, pos, zero, truth, 3, id, f, o, 2); }
void W_volume0(ARGS) { const int id[12] = {1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4}, f[3] = {0, 0, 0}; volume(xy, tnr, pv, pos, zero, truth, 3, id, f, id, 0); }
