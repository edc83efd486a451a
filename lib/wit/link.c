/* which particles tracking links, and with what fitness, on top of an arbitrary candidate search (VG_PEEL 14) */
#include "vg.h"
#include <stdlib.h>
#include "track.h"
#include "tracking_run.h"
#include "orientation.h"
#include "multimed.h"
int printf(const char *f, ...) { return 0; }
#define NC 2                      /* cameras */
#define NP 5                      /* particles a frame has room for */
double vg_pix(int what, double X, double Y, double Z, double id) __attribute__((const));
double vg_in(double X, double Y, double Z, double lim) __attribute__((const));
double vg_ang(int what, double a, double b, double c, double d, double e, double f, double g, double h, double i) __attribute__((const));
double vg_pos(int what, double a, double b, double c, double d) __attribute__((const));
void point_to_pixel(vec2d o, vec3d p, Calibration *cal, control_par *cpar) {
    o[0] = vg_pix(0, p[0], p[1], p[2], cal->int_par.cc); o[1] = vg_pix(1, p[0], p[1], p[2], cal->int_par.cc);
}
int pos3d_in_bounds(vec3d p, track_par *b) { return vg_in(p[0], p[1], p[2], b->dvxmin) > 0; }
#define A9(s, p, c) s[0], s[1], s[2], p[0], p[1], p[2], c[0], c[1], c[2]
void angle_acc(vec3d s, vec3d p, vec3d c, double *angle, double *acc) { *angle = vg_ang(0, A9(s, p, c)); *acc = vg_ang(1, A9(s, p, c)); }
/* what a frame is asked for: how often searched, where, and the answer to give */
typedef struct { int searches, ncand, cand[3], freq[3], asked, quali; double centre[4][3], proj[4][NC][2], at[4][3]; } script;
foundpix *sorted_candidates_in_volume(vec3d c, vec2d proj[], frame *frm, tracking_run *run) {
    script *s = (script *)frm->num_targets; foundpix *r; int i, k = s->searches++;
    for (i = 0; i < 3; i++) s->centre[k][i] = c[i];
    for (i = 0; i < NC; i++) { s->proj[k][i][0] = proj[i][0]; s->proj[k][i][1] = proj[i][1]; }
    if (s->ncand == 0) return NULL;
    r = (foundpix *) malloc(4*sizeof(foundpix));
    for (i = 0; i < s->ncand; i++) { r[i].ftnr = s->cand[i]; r[i].freq = s->freq[i]; }
    r[s->ncand].ftnr = -1;
    return r;
}
int assess_new_position(vec3d p, vec2d t[], int ind[][MAX_CANDS], frame *frm, tracking_run *run) {
    script *s = (script *)frm->num_targets; int i, k = s->asked++;
    for (i = 0; i < 3; i++) s->at[k][i] = p[i];
    for (i = 0; i < NC; i++) { t[i][0] = 10*k + i; t[i][1] = 20*k + i; ind[i][0] = i < s->quali ? 1 + i : -999; }
    return s->quali;
}
double point_position(vec2d t[], int n, mm_np *mm, Calibration *cals[], vec3d o) {
    int i;
    for (i = 0; i < 3; i++) o[i] = vg_pos(i, t[0][0], t[0][1], t[1][0], t[1][1]);
    return 0;
}
/* the frame buffer: what is read and written, in which order */
static void note(framebuf_base *fb, int what) { double *log = (double *)fb->_vptr; log[0]++; log[(int)log[0]] = what; }
void fb_next(framebuf_base *fb) { note(fb, 1000); }
void fb_prev(framebuf_base *fb) { note(fb, 1001); }
int fb_read_frame_at_end(framebuf_base *fb, int f, int links) { note(fb, 2*f + links); return 1; }
int fb_write_frame_from_start(framebuf_base *fb, int f) { note(fb, -f); return 1; }

typedef struct {
    tracking_run run; framebuf_base fb; frame fr[4], *buf[4]; script sc[4]; P path[4][NP]; corres cor[4][NP]; target tg[4][NC][4], *tp[4][NC];
    track_par tpar; volume_par vpar; control_par cpar; sequence_par seq; Calibration cal[NC], *cp[NC]; double log[20];
} scene;
/* positions: X[frame][particle][3] */
static inline void setup(scene *s, double *X, double *lim, double *txy) {
    int f, p, i;
    s->run.fb = &s->fb; s->run.tpar = &s->tpar; s->run.vpar = &s->vpar; s->run.cpar = &s->cpar; s->run.seq_par = &s->seq; s->run.cal = s->cp;
    s->run.lmax = lim[0]; s->tpar.dacc = lim[1]; s->tpar.dangle = lim[2]; s->tpar.dvxmin = lim[3]; s->run.ymin = lim[4]; s->run.ymax = lim[5];
    s->vpar.X_lay[0] = lim[6]; s->vpar.X_lay[1] = lim[7]; s->vpar.Zmin_lay[0] = lim[8]; s->vpar.Zmax_lay[1] = lim[9];
    s->vpar.Zmin_lay[1] = lim[10]; s->vpar.Zmax_lay[0] = lim[11];
    s->run.npart = 0; s->run.nlinks = 0; s->seq.first = 100; s->seq.last = 110; s->tpar.add = 0;
    s->fb.buf = s->buf; s->fb.num_cams = s->cpar.num_cams = NC; s->fb.buf_len = 4; s->fb._vptr = (fb_vtable *)s->log; s->log[0] = 0;
    for (i = 0; i < NC; i++) { s->cp[i] = &s->cal[i]; s->cal[i].int_par.cc = i; }
    for (f = 0; f < 4; f++) {
        frame *r = &s->fr[f];
        s->buf[f] = r; r->path_info = s->path[f]; r->correspond = s->cor[f]; r->targets = s->tp[f]; r->num_targets = (int *)&s->sc[f];
        r->num_cams = NC; r->max_targets = NP; r->num_parts = f == 1 ? 1 : 3;
        memset(&s->sc[f], 0, sizeof(script));
        for (i = 0; i < NC; i++) {
            s->tp[f][i] = s->tg[f][i];
            for (p = 0; p < 4; p++) { s->tg[f][i][p].x = txy[8*i + 2*p]; s->tg[f][i][p].y = txy[8*i + 2*p + 1]; s->tg[f][i][p].tnr = p ? -1 : 0; }
        }
        for (p = 0; p < NP; p++) {
            for (i = 0; i < 3; i++) s->path[f][p].x[i] = X[9*f + 3*(p % 3) + i];
            s->path[f][p].prev = -1; s->path[f][p].next = -2; s->path[f][p].prio = 2; s->path[f][p].inlist = 0;
            s->cor[f][p].nr = p; s->cor[f][p].p[0] = s->cor[f][p].p[1] = -1;
        }
    }
}
static inline void cands(scene *s, int f, int n, int c0, int q0, int c1, int q1) {
    s->sc[f].ncand = n; s->sc[f].cand[0] = c0; s->sc[f].freq[0] = q0; s->sc[f].cand[1] = c1; s->sc[f].freq[1] = q1; s->sc[f].cand[2] = 0; s->sc[f].freq[2] = 0;
}
static inline double dist(double *a, double *b) { return sqrt((a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])); }
static inline int in(double *a, double *b, scene *s) { return vg_in(a[0] - b[0], a[1] - b[1], a[2] - b[2], s->tpar.dvxmin) > 0; }
static inline int good(double acc, double ang, scene *s) { return (acc < s->tpar.dacc && ang < s->tpar.dangle) || acc < s->tpar.dacc/10; }
static inline double fit(double len, double acc, double ang, double q, scene *s) { return (len/s->run.lmax + acc/s->tpar.dacc + ang/s->tpar.dangle)/q; }
#define AT(f, p) (X + 9*(f) + 3*(p))
#define ARGS double *R X, double *R lim, double *R txy, double *R zero, int *R truth
/* one or two candidates in frame f */
#define NOTHING(f) cands(&s, f, 0, 0, 0, 0, 0)
/* a particle that begins a trajectory: candidate and follower decide, the prediction being the candidate moved on */
void W_fwd_first(ARGS) {
    scene s; double P5[3], acc, ang; int i, j, g; P *p = &s.path[1][0];
    setup(&s, X, lim, txy); cands(&s, 2, 1, 1, 3, 0, 0); cands(&s, 3, 1, 2, 2, 0, 0);
    s.cor[1][0].p[0] = 3;
    trackcorr_c_loop(&s.run, 105);
    for (i = 0; i < 3; i++) { P5[i] = 2*AT(2, 1)[i] - AT(1, 0)[i]; zero[i] = s.sc[2].centre[0][i] - AT(1, 0)[i]; zero[3 + i] = s.sc[3].centre[0][i] - P5[i]; }
    zero[6] = s.sc[2].proj[0][0][0] - txy[6]; zero[7] = s.sc[2].proj[0][0][1] - txy[7];
    for (i = 0; i < 2; i++) {
        zero[8 + i] = s.sc[2].proj[0][1][i] - vg_pix(i, AT(1, 0)[0], AT(1, 0)[1], AT(1, 0)[2], 1);
        for (j = 0; j < NC; j++) zero[10 + 2*i + j] = s.sc[3].proj[0][j][i] - vg_pix(i, P5[0], P5[1], P5[2], j);
    }
    acc = vg_ang(1, A9(AT(2, 1), AT(3, 2), P5)); ang = vg_ang(0, A9(AT(2, 1), AT(3, 2), P5));
    g = in(AT(3, 2), AT(2, 1), &s) && good(acc, ang, &s);
    truth[0] = p->inlist == g; truth[1] = p->next == (g ? 1 : -2); truth[2] = s.path[2][1].prev == (g ? 0 : -1);
    zero[14] = g ? p->finaldecis - fit((dist(AT(1, 0), AT(2, 1)) + dist(AT(2, 1), AT(3, 2)))/2, acc, ang, 5, &s) : 0;
    zero[15] = s.sc[2].searches - 1; zero[16] = s.sc[3].searches - 1; zero[17] = s.run.npart - 1; zero[18] = s.run.nlinks - g;
}
/* a particle that continues one: the prediction uses the position before; without a follower the candidate alone decides */
static inline void pred(double *X, int h, int c, double *P2, double *P5) {
    int i;
    for (i = 0; i < 3; i++) { P2[i] = 2*AT(1, h)[i] - AT(0, h)[i]; P5[i] = 0.5*(5*AT(2, c)[i] - 4*AT(1, h)[i] + AT(0, h)[i]); }
}
void W_fwd_prev(ARGS) {
    scene s; double P2[3], P5[3], acc, ang, a0, g0, f; int i, j, g, d; P *p = &s.path[1][0];
    setup(&s, X, lim, txy); cands(&s, 2, 1, 1, 3, 0, 0); cands(&s, 3, 1, 2, 2, 0, 0);
    p->prev = 0; s.cor[1][0].p[0] = 3;
    trackcorr_c_loop(&s.run, 105);
    pred(X, 0, 1, P2, P5);
    for (i = 0; i < 3; i++) { zero[i] = s.sc[2].centre[0][i] - P2[i]; zero[3 + i] = s.sc[3].centre[0][i] - P5[i]; }
    for (i = 0; i < 2; i++)
        for (j = 0; j < NC; j++) {
            zero[6 + 2*i + j] = s.sc[2].proj[0][j][i] - vg_pix(i, P2[0], P2[1], P2[2], j);
            zero[10 + 2*i + j] = s.sc[3].proj[0][j][i] - vg_pix(i, P5[0], P5[1], P5[2], j);
        }
    a0 = vg_ang(1, A9(AT(1, 0), P2, AT(2, 1))); g0 = vg_ang(0, A9(AT(1, 0), P2, AT(2, 1)));
    acc = (a0 + vg_ang(1, A9(AT(2, 1), AT(3, 2), P5)))/2; ang = (g0 + vg_ang(0, A9(AT(2, 1), AT(3, 2), P5)))/2;
    g = in(AT(3, 2), AT(2, 1), &s) && good(acc, ang, &s);
    d = in(AT(2, 1), AT(1, 0), &s) && good(a0, g0, &s);
    truth[0] = p->inlist == (g || d); truth[1] = p->next == (g || d ? 1 : -2); truth[2] = s.path[2][1].prev == (g || d ? 0 : -1);
    f = g ? fit((dist(AT(1, 0), AT(2, 1)) + dist(AT(2, 1), AT(3, 2)))/2, acc, ang, 5, &s)
          : fit((dist(AT(1, 0), AT(2, 1)) + dist(AT(1, 0), AT(0, 0)))/2, a0, g0, 3, &s);
    zero[14] = g || d ? p->finaldecis - f : 0; zero[15] = s.run.nlinks - (g || d); truth[3] = p->prev == 0;
}
/* no follower among the particles, but an unused target in enough cameras: the candidate is linked, a particle added */
static inline int inside(double x, double y, double z, double *lim) {
    return lim[6] < x && x < lim[7] && lim[4] < y && y < lim[5] && lim[8] < z && z < lim[9];
}
static inline void create(double *X, double *lim, double *txy, double *zero, int *truth, int quali, int add, int full) {
    scene s; double P5[3], Q[3], acc, ang; int i, g, a; P *p = &s.path[1][0];
    setup(&s, X, lim, txy); cands(&s, 2, 1, 1, 3, 0, 0); NOTHING(3); s.sc[3].quali = quali;
    s.tpar.add = add; if (full) s.fr[3].max_targets = 3;
    trackcorr_c_loop(&s.run, 105);
    for (i = 0; i < 3; i++) { P5[i] = 2*AT(2, 1)[i] - AT(1, 0)[i]; Q[i] = vg_pos(i, 0, 0, 1, 1); zero[i] = s.sc[3].at[0][i] - P5[i]; }
    acc = vg_ang(1, A9(AT(2, 1), Q, P5)); ang = vg_ang(0, A9(AT(2, 1), Q, P5));
    g = quali >= 2 && inside(Q[0], Q[1], Q[2], lim) && in(AT(2, 1), Q, &s) && good(acc, ang, &s);
    a = g && add && !full;
    truth[0] = p->inlist == g; truth[1] = p->next == (g ? 1 : -2); truth[2] = s.path[2][1].prev == (g ? 0 : -1);
    zero[3] = g ? p->finaldecis - fit((dist(AT(1, 0), AT(2, 1)) + dist(AT(2, 1), Q))/2, acc, ang, quali + 3, &s) : 0;
    zero[4] = s.fr[3].num_parts - 3 - a;
    for (i = 0; i < 3; i++) zero[5 + i] = a ? s.path[3][3].x[i] - Q[i] : 0;
    for (i = 0; i < NC; i++) {
        truth[3 + i] = s.tg[3][i][1 + i].tnr == (a ? 3 : -1);
        truth[5 + i] = !a || s.cor[3][3].p[i] == 1 + i;
    }
    truth[7] = s.fr[2].num_parts == 3 && s.fr[1].num_parts == 1;
}
void W_fwd_create(ARGS) { create(X, lim, txy, zero, truth, 2, 1, 0); }
void W_fwd_create_full(ARGS) { create(X, lim, txy, zero, truth, 2, 1, 1); }
void W_fwd_create_off(ARGS) { create(X, lim, txy, zero, truth, 2, 0, 0); }
void W_fwd_create_one(ARGS) { create(X, lim, txy, zero, truth, 1, 1, 0); }
/* no admissible candidate: a particle is made from unused targets about the predicted position */
static inline void restore(double *X, double *lim, double *txy, double *zero, int *truth, int quali, int add, int full, int prev) {
    scene s; double P2[3], P5[3], Q[3], acc, ang, a0, g0; int i, g, d; P *p = &s.path[1][0];
    setup(&s, X, lim, txy); cands(&s, 2, 1, 1, 3, 0, 0); NOTHING(3); s.sc[2].quali = quali;
    s.tpar.add = add; if (full) s.fr[2].max_targets = 3;
    if (prev) p->prev = 0;
    trackcorr_c_loop(&s.run, 105);
    pred(X, 0, 1, P2, P5);
    a0 = vg_ang(1, A9(AT(1, 0), P2, AT(2, 1))); g0 = vg_ang(0, A9(AT(1, 0), P2, AT(2, 1)));
    d = prev && in(AT(2, 1), AT(1, 0), &s) && good(a0, g0, &s);
    for (i = 0; i < 3; i++) { Q[i] = vg_pos(i, 0, 0, 1, 1); zero[i] = !d && add && prev ? s.sc[2].at[0][i] - P2[i] : 0; }
    acc = vg_ang(1, A9(AT(1, 0), P2, Q)); ang = vg_ang(0, A9(AT(1, 0), P2, Q));
    g = !d && prev && add && quali >= 2 && !full && inside(Q[0], Q[1], Q[2], lim) && in(P2, Q, &s) && good(acc, ang, &s);
    truth[0] = p->inlist == (g || d); truth[1] = p->next == (g ? 3 : d ? 1 : -2);
    truth[2] = s.path[2][1].prev == (d ? 0 : -1); truth[3] = !g || s.path[2][3].prev == 0;
    zero[3] = g ? p->finaldecis - fit((dist(AT(1, 0), Q) + dist(AT(0, 0), AT(1, 0)))/2, acc, ang, quali, &s) : 0;
    zero[4] = s.fr[2].num_parts - 3 - g;
    for (i = 0; i < 3; i++) zero[5 + i] = g ? s.path[2][3].x[i] - Q[i] : 0;
    for (i = 0; i < NC; i++) truth[4 + i] = s.tg[2][i][1 + i].tnr == (g ? 3 : -1);
}
void W_fwd_restore(ARGS) { restore(X, lim, txy, zero, truth, 2, 1, 0, 1); }
void W_fwd_restore_full(ARGS) { restore(X, lim, txy, zero, truth, 2, 1, 1, 1); }
void W_fwd_restore_off(ARGS) { restore(X, lim, txy, zero, truth, 2, 0, 0, 1); }
void W_fwd_restore_one(ARGS) { restore(X, lim, txy, zero, truth, 1, 1, 0, 1); }
void W_fwd_restore_first(ARGS) { restore(X, lim, txy, zero, truth, 2, 1, 0, 0); }
/* two particles and their candidates: everyone asks for the fittest, the fitter gets it, and both ends name each other */
static inline void pair(double *X, double *lim, double *txy, double *zero, int *truth, int n, int c0, int c1, int count) {
    scene s; double f[2][2], best[2]; int ok[2][2], h, k, c[2], want[2], w; double P2[3], P5[3];
    setup(&s, X, lim, txy); s.fr[1].num_parts = 2; cands(&s, 2, n, c0, 2, c1, 3); NOTHING(3);
    s.path[1][0].prev = 2; s.path[1][1].prev = 1;
    trackcorr_c_loop(&s.run, 105);
    c[0] = c0; c[1] = c1;
    for (h = 0; h < 2; h++) {
        want[h] = -2; best[h] = 0;
        for (k = 0; k < n; k++) {
            double *B = AT(0, h ? 1 : 2), *D = AT(2, c[k]), acc, ang; int i;
            for (i = 0; i < 3; i++) P2[i] = 2*AT(1, h)[i] - B[i];
            acc = vg_ang(1, A9(AT(1, h), P2, D)); ang = vg_ang(0, A9(AT(1, h), P2, D));
            ok[h][k] = in(D, AT(1, h), &s) && good(acc, ang, &s);
            f[h][k] = fit((dist(AT(1, h), D) + dist(AT(1, h), B))/2, acc, ang, k ? 3 : 2, &s);
        }
        if (n == 1) { if (ok[h][0]) { want[h] = c0; best[h] = f[h][0]; } }
    }
    /* one candidate */
    w = want[0] == c0 && want[1] == c0 ? (best[0] > best[1] ? 1 : 0) : want[0] == c0 ? 0 : want[1] == c0 ? 1 : -1;
    truth[0] = s.path[2][c0].prev == w;
    truth[1] = s.path[1][0].next == (w == 0 ? c0 : -2); truth[2] = s.path[1][1].next == (w == 1 ? c0 : -2);
    zero[0] = s.run.npart - 2;
    if (count) zero[1] = s.run.nlinks - (w >= 0);
}
void W_fwd_pair(ARGS) { pair(X, lim, txy, zero, truth, 1, 1, 0, 0); }
void W_fwd_pair_count(ARGS) { pair(X, lim, txy, zero, truth, 1, 1, 0, 1); }
/* one particle, two candidates: the fitter one (linked by the direct test, which the first admissible one closes) */
void W_fwd_two(ARGS) {
    scene s; double P5[3], acc, ang, f[2]; int i, k, g[2], want; P *p = &s.path[1][0];
    setup(&s, X, lim, txy); cands(&s, 2, 2, 2, 3, 1, 2); cands(&s, 3, 1, 0, 2, 0, 0);
    trackcorr_c_loop(&s.run, 105);
    for (k = 0; k < 2; k++) {
        double *D = AT(2, k ? 1 : 2);
        for (i = 0; i < 3; i++) P5[i] = 2*D[i] - AT(1, 0)[i];
        acc = vg_ang(1, A9(D, AT(3, 0), P5)); ang = vg_ang(0, A9(D, AT(3, 0), P5));
        g[k] = in(AT(3, 0), D, &s) && good(acc, ang, &s);
        f[k] = fit((dist(AT(1, 0), D) + dist(D, AT(3, 0)))/2, acc, ang, k ? 4 : 5, &s);
    }
    want = g[0] && g[1] ? (f[0] > f[1] ? 1 : 2) : g[0] ? 2 : g[1] ? 1 : -2;
    truth[0] = p->next == want; truth[1] = s.path[2][1].prev == (want == 1 ? 0 : -1); truth[2] = s.path[2][2].prev == (want == 2 ? 0 : -1);
    truth[3] = p->inlist == g[0] + g[1];
    zero[0] = want == 1 ? p->finaldecis - f[1] : want == 2 ? p->finaldecis - f[0] : 0; zero[1] = s.sc[3].searches - 2;
}
/* reading and writing of frames */
static inline void logs(scene *s, int n, const double *e, double *zero) {
    int i;
    zero[0] = s->log[0] - n;
    for (i = 0; i < n; i++) zero[1 + i] = s->log[1 + i] - e[i];
}
void W_fwd_frames(ARGS) {
    scene s; const double e[3] = {1000, -105, 216};
    setup(&s, X, lim, txy); NOTHING(2); NOTHING(3); trackcorr_c_loop(&s.run, 105); logs(&s, 3, e, zero);
    truth[0] = s.path[1][0].next == -2; truth[1] = s.run.nlinks == 0; truth[2] = s.run.npart == 1;
}
void W_fwd_frames_last(ARGS) {
    scene s; const double e[3] = {1000, -107, 220};
    setup(&s, X, lim, txy); NOTHING(2); trackcorr_c_loop(&s.run, 107); logs(&s, 3, e, zero);
}
void W_fwd_frames_end(ARGS) {
    scene s; const double e[2] = {1000, -108};
    setup(&s, X, lim, txy); NOTHING(2); trackcorr_c_loop(&s.run, 108); logs(&s, 2, e, zero);
}
void W_fwd_frames_start(ARGS) {
    scene s; const double e[7] = {200, 1000, 202, 1000, 204, 1000, 1001};
    setup(&s, X, lim, txy); track_forward_start(&s.run); logs(&s, 7, e, zero);
}
void W_fwd_frames_finish(ARGS) {
    scene s; const double e[2] = {1000, -109};
    setup(&s, X, lim, txy); trackcorr_c_finish(&s.run, 109); logs(&s, 2, e, zero);
}
/* backwards: a particle with a next but no previous one asks for candidates one frame earlier */
static inline void back(double *X, double *lim, double *txy, double *zero, int *truth, int prev, int next, int havenext, int haveprev) {
    scene s; double P2[3], P5[3], acc, ang, f, links; int i, j, g, o, asks = havenext && !haveprev; P *p = &s.path[1][0];
    setup(&s, X, lim, txy); cands(&s, 2, 1, 1, 3, 0, 0); s.seq.last = 102;
    if (havenext) p->next = 2;
    if (haveprev) p->prev = 0;
    s.path[2][1].prev = prev; s.path[2][1].next = next;
    links = trackback_c(&s.run);
    for (i = 0; i < 3; i++) { P2[i] = 2*AT(1, 0)[i] - AT(0, 2)[i]; P5[i] = 0.5*(5*AT(2, 1)[i] - 4*AT(1, 0)[i] + AT(0, 2)[i]); }
    for (i = 0; i < 3; i++) zero[2 + i] = asks ? s.sc[2].centre[0][i] - P2[i] : s.sc[2].searches;
    for (i = 0; i < 2; i++)
        for (j = 0; j < NC; j++) zero[5 + 2*i + j] = asks ? s.sc[2].proj[0][j][i] - vg_pix(i, P2[0], P2[1], P2[2], j) : 0;
    acc = vg_ang(1, A9(AT(1, 0), P2, AT(2, 1))); ang = vg_ang(0, A9(AT(1, 0), P2, AT(2, 1)));
    g = asks && in(AT(1, 0), AT(2, 1), &s) && good(acc, ang, &s);
    f = fit((dist(AT(1, 0), AT(2, 1)) + dist(AT(1, 0), AT(0, 2)))/2, acc, ang, 3, &s);
    /* the candidate must be free towards this frame; one with an earlier position has to fit the three others */
    acc = vg_ang(1, A9(AT(2, 1), AT(3, 0), P5)); ang = vg_ang(0, A9(AT(2, 1), AT(3, 0), P5));
    o = g && next == -2 && (prev == -1 || good(acc, ang, &s));
    truth[0] = p->prev == (o ? 1 : haveprev ? 0 : -1); truth[1] = s.path[2][1].next == (o ? 0 : next); truth[2] = s.path[2][1].prev == prev;
    truth[3] = p->next == (havenext ? 2 : -2);
    zero[1] = o ? p->finaldecis - f : 0;
    zero[0] = links - (o || haveprev);
}
void W_back_free(ARGS) { back(X, lim, txy, zero, truth, -1, -2, 1, 0); }
void W_back_end(ARGS) { back(X, lim, txy, zero, truth, 0, -2, 1, 0); }
void W_back_taken(ARGS) { back(X, lim, txy, zero, truth, 0, 2, 1, 0); }
void W_back_taken2(ARGS) { back(X, lim, txy, zero, truth, -1, 2, 1, 0); }
void W_back_alone(ARGS) { back(X, lim, txy, zero, truth, -1, -2, 0, 0); }
void W_back_linked(ARGS) { back(X, lim, txy, zero, truth, -1, -2, 1, 1); }
static inline void backnew(double *X, double *lim, double *txy, double *zero, int *truth, int quali, int add, int full) {
    scene s; double P2[3], Q[3], acc, ang; int i, g; P *p = &s.path[1][0];
    setup(&s, X, lim, txy); NOTHING(2); s.seq.last = 102; s.sc[2].quali = quali; s.tpar.add = add; if (full) s.fr[2].max_targets = 3;
    p->next = 2;
    trackback_c(&s.run);
    for (i = 0; i < 3; i++) { P2[i] = 2*AT(1, 0)[i] - AT(0, 2)[i]; Q[i] = vg_pos(i, 0, 0, 1, 1); zero[i] = add ? s.sc[2].at[0][i] - P2[i] : s.sc[2].asked; }
    acc = vg_ang(1, A9(AT(1, 0), P2, Q)); ang = vg_ang(0, A9(AT(1, 0), P2, Q));
    g = quali >= 2 && add && !full && inside(Q[0], Q[1], Q[2], lim) && in(AT(1, 0), Q, &s) && good(acc, ang, &s);
    truth[0] = p->prev == (g ? 3 : -1); truth[1] = !g || s.path[2][3].next == 0;
    zero[3] = g ? p->finaldecis - fit((dist(AT(1, 0), Q) + dist(AT(0, 2), AT(1, 0)))/2, acc, ang, quali, &s) : 0;
    zero[4] = s.fr[2].num_parts - 3 - g;
    for (i = 0; i < 3; i++) zero[5 + i] = g ? s.path[2][3].x[i] - Q[i] : 0;
    for (i = 0; i < NC; i++) truth[2 + i] = s.tg[2][i][1 + i].tnr == (g ? 3 : -1);
}
void W_back_new(ARGS) { backnew(X, lim, txy, zero, truth, 2, 1, 0); }
void W_back_new_full(ARGS) { backnew(X, lim, txy, zero, truth, 2, 1, 1); }
void W_back_new_off(ARGS) { backnew(X, lim, txy, zero, truth, 2, 0, 0); }
void W_back_new_one(ARGS) { backnew(X, lim, txy, zero, truth, 1, 1, 0); }
void W_back_frames(ARGS) {
    scene s; const double e[20] = {221, 1000, 219, 1000, 217, 1000, 215, 1000, 1001};
    setup(&s, X, lim, txy);
    s.fr[1].num_parts = 0; s.seq.first = 106; s.seq.last = 110;
    trackback_c(&s.run);
    zero[0] = s.log[0] - 18;
    { int i; for (i = 0; i < 9; i++) zero[1 + i] = s.log[1 + i] - e[i]; }
    zero[10] = s.log[10] - 1000; zero[11] = s.log[11] + 109; zero[12] = s.log[12] - 213;
    zero[13] = s.log[13] - 1000; zero[14] = s.log[14] + 108; zero[15] = s.log[15] - 1000; zero[16] = s.log[16] + 107;
    zero[17] = s.log[17] - 1000; zero[18] = s.log[18] + 106;
}
