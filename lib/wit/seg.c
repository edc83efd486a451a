/* detection of targets by connectivity: small images, some of whose pixels have arbitrary values (VG_PEEL 60, VG_RANGE, VG_PARTS 5) */
#include "vg.h"
#include <stdlib.h>
#include "parameters.h"
#include "segmentation.h"
typedef unsigned char u8;
typedef struct { u8 m[49]; target_par t; control_par cp; target p[6]; } S;
static inline void setup(S *s, int w, int h, int thr, int disco, int cam) {
    int i;
    for (i = 0; i < 49; i++) s->m[i] = 0;
    s->cp.imx = w; s->cp.imy = h;
    for (i = 0; i < 4; i++) s->t.gvthres[i] = i == cam ? thr : 999;
    s->t.discont = disco; s->t.nnmin = s->t.nxmin = s->t.nymin = 0; s->t.nnmax = s->t.nxmax = s->t.nymax = 99; s->t.sumg_min = 0; s->t.cr_sz = 0;
    for (i = 0; i < 6; i++) { s->p[i].n = s->p[i].nx = s->p[i].ny = s->p[i].sumg = s->p[i].tnr = s->p[i].pnr = -77; s->p[i].x = s->p[i].y = -77; }
}
#define PIX double *R zero, int *R truth, int *R need
/* found: the k-th target has these numbers */
static inline int is(S *s, int k, int n, int nx, int ny, int sumg) {
    return s->p[k].n == n && s->p[k].nx == nx && s->p[k].ny == ny && s->p[k].sumg == sumg && s->p[k].tnr == -1 && s->p[k].pnr == k;
}

/* one pixel of any value, any threshold: a target when it is brighter */
void W_rec_threshold(u8 v, int t, PIX) {
    S s; int n;
    setup(&s, 3, 3, t, 5, 2); s.m[4] = v; need[0] = t > 0; need[1] = t <= 255;
    n = targ_rec(s.m, &s.t, 0, 3, 0, 3, &s.cp, 2, s.p);
    truth[0] = n == 1;
    truth[1] = v > t ? is(&s, 0, 1, 1, 1, v) : s.p[0].n == 1 && s.p[0].sumg == 1 && s.p[0].tnr == -1;
}
void W_fit_threshold(u8 v, int t, PIX) {
    S s; int n;
    setup(&s, 3, 3, t, 5, 1); s.m[4] = v; need[0] = t > 0; need[1] = t <= 255;
    n = peak_fit(s.m, &s.t, 0, 3, 0, 3, &s.cp, 1, s.p);
    truth[0] = n == (v > t);
    truth[1] = v > t ? is(&s, 0, 1, 1, 1, v) : s.p[0].n == -77;
    zero[0] = v > t ? s.p[0].x - 1.5 : 0; zero[1] = v > t ? s.p[0].y - 1.5 : 0;
}
#define T 10

static inline int run(S *s, int fit, int w, int h) { return fit ? peak_fit(s->m, &s->t, 0, w, 0, h, &s->cp, 0, s->p) : targ_rec(s->m, &s->t, 0, w, 0, h, &s->cp, 0, s->p); }
/* two neighbours brighter than the threshold, the first not darker, or darker by no more than the discontinuity: one target */
#define PAIR(FIT, W, H, I, J, DX, DY, COND) \
    S s; int n; double g = FIT ? 0 : T; \
    if (!(COND)) return; \
    setup(&s, W, H, T, 5, 0); s.m[I] = a; s.m[J] = b; \
    n = run(&s, FIT, W, H); \
    truth[0] = n == 1; truth[1] = is(&s, 0, 2, 1 + DX, 1 + DY, a + b); \
    zero[0] = s.p[0].x - (1.5 + DX*(b - g)/(a + b - 2*g)); zero[1] = s.p[0].y - (1.5 + DY*(b - g)/(a + b - 2*g));
#define PA u8 a, u8 b, PIX
#define DOWN a > b && b > T && a > T
#define UP b > a && a > T && b > T && b <= a + 5
#define SAME a == b && a > T && b > T
void W_rec_right_down(PA) { PAIR(0, 4, 3, 5, 6, 1, 0, DOWN) }
void W_rec_below_down(PA) { PAIR(0, 3, 4, 4, 7, 0, 1, DOWN) }
void W_rec_right_up(PA) { PAIR(0, 4, 3, 5, 6, 1, 0, UP) }
void W_rec_below_up(PA) { PAIR(0, 3, 4, 4, 7, 0, 1, UP) }
void W_rec_right_same(PA) { PAIR(0, 4, 3, 5, 6, 1, 0, SAME) }
void W_fit_right_down(PA) { PAIR(1, 5, 4, 6, 7, 1, 0, DOWN) }
void W_fit_below_down(PA) { PAIR(1, 3, 5, 4, 7, 0, 1, DOWN) }
void W_fit_right_up(PA) { PAIR(1, 5, 4, 6, 7, 1, 0, UP) }
void W_fit_right_same(PA) { PAIR(1, 5, 4, 6, 7, 1, 0, SAME) }

/* a pixel too dark to belong to the target: the threshold is a strict limit */
#define DARK(FIT, W, H, I, J, X, Y) \
    S s; int n; if (!(a > T && b <= T)) return; \
    setup(&s, W, H, T, 5, 0); s.m[I] = a; s.m[J] = b; \
    n = run(&s, FIT, W, H); \
    truth[0] = n == 1; truth[1] = is(&s, 0, 1, 1, 1, a); zero[0] = s.p[0].x - X; zero[1] = s.p[0].y - Y;
void W_rec_right_dark(PA) { DARK(0, 4, 3, 5, 6, 1.5, 1.5) }
void W_rec_left_dark(PA) { DARK(0, 4, 3, 6, 5, 2.5, 1.5) }
void W_fit_right_dark(PA) { DARK(1, 5, 4, 6, 7, 1.5, 1.5) }
void W_fit_above_dark(PA) { DARK(1, 3, 5, 7, 4, 1.5, 2.5) }
/* brighter by more than the discontinuity: another target, numbered in the order of the image; the two do not share pixels */
#define JUMP(FIT, W, H, I, J, K, DX, DY) \
    S s; int n; double g = FIT ? 0 : T; \
    if (!(a > T && b > a && c > a + 5 && c > b && b > T && c > T)) return; \
    setup(&s, W, H, T, 5, 0); s.m[I] = a; s.m[J] = 0; s.m[K] = c; \
    n = run(&s, FIT, W, H); \
    truth[0] = n == 2; truth[1] = is(&s, 0, 1, 1, 1, a); truth[2] = is(&s, 1, 1, 1, 1, c); \
    zero[0] = s.p[0].x - 1.5; zero[1] = s.p[0].y - 1.5; zero[2] = s.p[1].x - 1.5 - 2*DX; zero[3] = s.p[1].y - 1.5 - 2*DY;
#define P3 u8 a, u8 b, u8 c, PIX
void W_rec_two_right(P3) { JUMP(0, 5, 3, 6, 7, 8, 1, 0) }
void W_rec_two_below(P3) { JUMP(0, 3, 5, 4, 7, 10, 0, 1) }
void W_fit_two_right(P3) { JUMP(1, 6, 4, 7, 8, 9, 1, 0) }
void W_fit_two_below(P3) { JUMP(1, 3, 6, 4, 7, 10, 0, 1) }
/* a next pixel beside which it gets brighter by more than the discontinuity is not taken; it goes to the brighter one */
#define VALLEY(FIT, W, H, I, J, K, DX, DY) \
    S s; int n; double g = FIT ? 0 : T; \
    if (!(a > T && b > T && b <= a && c > a + 5 && c > b && c > T)) return; \
    setup(&s, W, H, T, 5, 0); s.m[I] = a; s.m[J] = b; s.m[K] = c; \
    n = run(&s, FIT, W, H); \
    truth[0] = n == 2; truth[1] = is(&s, 0, 1, 1, 1, a); truth[2] = is(&s, 1, 2, 1 + DX, 1 + DY, b + c); \
    zero[0] = s.p[0].x - 1.5; zero[1] = s.p[0].y - 1.5; \
    zero[2] = s.p[1].x - (1.5 + DX*(b - g + 2*(c - g))/(b + c - 2*g)); zero[3] = s.p[1].y - (1.5 + DY*(b - g + 2*(c - g))/(b + c - 2*g));
/* limits of size, extension and brightness, each inclusive but that of brightness */
#define LIM(FIT, W, H, I, J, EDIT, OK) \
    S s; int n; setup(&s, W, H, T, 5, 0); s.m[I] = 60; s.m[J] = 40; EDIT; \
    n = run(&s, FIT, W, H); \
    truth[0] = n == (FIT && !(OK) ? 0 : 1); \
    truth[1] = (OK) ? s.p[0].n == 2 && s.p[0].sumg == 100 : FIT ? s.p[0].n == -77 : s.p[0].n == 1 && s.p[0].sumg == 1;
#define LA int l, PIX
void W_rec_nnmin(LA) { LIM(0, 4, 3, 5, 6, s.t.nnmin = l, l <= 2) }
void W_rec_nnmax(LA) { LIM(0, 4, 3, 5, 6, s.t.nnmax = l, l >= 2) }
void W_rec_nxmin(LA) { LIM(0, 4, 3, 5, 6, s.t.nxmin = l, l <= 2) }
void W_rec_nxmax(LA) { LIM(0, 4, 3, 5, 6, s.t.nxmax = l, l >= 2) }
void W_rec_nymin(LA) { LIM(0, 4, 3, 5, 6, s.t.nymin = l, l <= 1) }
void W_rec_nymax(LA) { LIM(0, 4, 3, 5, 6, s.t.nymax = l, l >= 1) }
void W_rec_nxmin_tall(LA) { LIM(0, 3, 4, 4, 7, s.t.nxmin = l, l <= 1) }
void W_rec_nxmax_tall(LA) { LIM(0, 3, 4, 4, 7, s.t.nxmax = l, l >= 1) }
void W_rec_nymin_tall(LA) { LIM(0, 3, 4, 4, 7, s.t.nymin = l, l <= 2) }
void W_rec_nymax_tall(LA) { LIM(0, 3, 4, 4, 7, s.t.nymax = l, l >= 2) }
void W_rec_sumg(LA) { LIM(0, 4, 3, 5, 6, s.t.sumg_min = l, l < 100) }
void W_fit_nnmin(LA) { LIM(1, 5, 4, 6, 7, s.t.nnmin = l, l <= 2) }
void W_fit_nnmax(LA) { LIM(1, 5, 4, 6, 7, s.t.nnmax = l, l >= 2) }
void W_fit_nxmin(LA) { LIM(1, 5, 4, 6, 7, s.t.nxmin = l, l <= 2) }
void W_fit_nxmax(LA) { LIM(1, 5, 4, 6, 7, s.t.nxmax = l, l >= 2) }
void W_fit_nymin_tall(LA) { LIM(1, 3, 5, 4, 7, s.t.nymin = l, l <= 2) }
void W_fit_nymax_tall(LA) { LIM(1, 3, 5, 4, 7, s.t.nymax = l, l >= 2) }
void W_fit_nymin(LA) { LIM(1, 5, 4, 6, 7, s.t.nymin = l, l <= 1) }
void W_fit_nymax(LA) { LIM(1, 5, 4, 6, 7, s.t.nymax = l, l >= 1) }
void W_fit_sumg(LA) { LIM(1, 5, 4, 6, 7, s.t.sumg_min = l, l < 100) }
/* touching labels: each noted once, none of its own, at most four places used */
void W_touch(int p1, int p2, int k, int q, PIX) {
    peak t; int i;
    t.n_touch = 1; t.touch[0] = q; t.touch[1] = t.touch[2] = t.touch[3] = -77;
    check_touch(&t, p1, p2);
    k = p2 != 0 && p2 != p1 && p2 != q;
    truth[0] = t.n_touch == 1 + k; truth[1] = t.touch[0] == q; truth[2] = t.touch[1] == (k ? p2 : -77); truth[3] = t.touch[2] == -77;
}
