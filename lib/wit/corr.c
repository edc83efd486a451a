/* correspondences: which targets are paired, which pairs make groups, and that no target is used twice (VG_PEEL 60, VG_SPLIT) */
#include "vg.h"
#include <stdlib.h>
#include "correspondences.h"
#include "epi.h"
int printf(const char *f, ...) { return 0; }
int take_best_candidates(n_tupel *src, n_tupel *dst, int num_cams, int num_cands, int **tusage);
double vg_epi(int what, double x, double y, double a, double b, double m, double v) __attribute__((const));
double vg_fc(int what, double a, double b, double c, double d, double e) __attribute__((const));
void epi_mm(double x, double y, Calibration *c1, Calibration *c2, mm_np *mm, volume_par *v, double *xmin, double *ymin, double *xmax, double *ymax) {
    double a = c1->int_par.cc, b = c2->int_par.cc;
    *xmin = vg_epi(0, x, y, a, b, mm->n1, v->corrmin); *ymin = vg_epi(1, x, y, a, b, mm->n1, v->corrmin);
    *xmax = vg_epi(2, x, y, a, b, mm->n1, v->corrmin); *ymax = vg_epi(3, x, y, a, b, mm->n1, v->corrmin);
}
/* the number of candidates found is kept in the first target of the camera searched; what is asked for is noted in its second */
int find_candidate(coord_2d *crd, target *pix, int num, double xa, double ya, double xb, double yb, int n, int nx, int ny, int sumg,
    candidate cand[], volume_par *vpar, control_par *cpar, Calibration *cal) {
    int i, k = pix[0].tnr;
    pix[1].n = n; pix[1].nx = nx; pix[1].ny = ny; pix[1].sumg = sumg; pix[1].tnr = num; pix[1].pnr = crd[3].pnr;
    pix[2].x = vg_fc(0, xa, ya, xb, yb, cal->int_par.cc + cpar->pix_x);
    for (i = 0; i < k; i++) { cand[i].pnr = 2 - i; cand[i].tol = vg_fc(1, i, xa, ya, xb, yb); cand[i].corr = vg_fc(2, i, xa, ya, xb, yb); }
    return k;
}
#define NC 3
typedef struct { frame fr; target tg[NC][3], *tp[NC]; int num[NC]; coord_2d cr[NC][4], *cd[NC]; correspond l[NC][3]; Calibration cal[NC], *cp[NC]; control_par cpar; volume_par vpar; mm_np mm; } scene;
/* every usable target of a camera is paired with the candidates near its epipolar line in every later camera; the others keep no candidates */
static inline void pairs(double *x, double *pv, double *zero, int *truth, int nc, int found, int unused) {
    scene s; correspond *list[4][4], l[3][3]; int i, j, a, b, n = 0, z = 0, k = 0; double e[4];
    s.fr.targets = s.tp; s.fr.num_targets = s.num; s.fr.num_cams = nc; s.cpar.num_cams = nc; s.cpar.mm = &s.mm; s.mm.n1 = pv[0]; s.vpar.corrmin = pv[1]; s.cpar.pix_x = pv[2];
    for (i = 0; i < nc; i++) {
        s.tp[i] = s.tg[i]; s.num[i] = i == 0 ? 3 : 2; s.cd[i] = s.cr[i]; s.cp[i] = &s.cal[i]; s.cal[i].int_par.cc = 10 + i;
        for (j = 0; j < 4; j++) { s.cr[i][j].x = 100 + 10*i + j; s.cr[i][j].y = x[4*i + j]; s.cr[i][j].pnr = j < 3 ? (j + 1) % 3 : 70 + i; }
        for (j = 0; j < 3; j++) { s.tg[i][j].n = 100*i + 10*j + 1; s.tg[i][j].nx = 100*i + 10*j + 2; s.tg[i][j].ny = 100*i + 10*j + 3; s.tg[i][j].sumg = 100*i + 10*j + 4; s.tg[i][j].tnr = 0; }
        s.tg[i][0].tnr = found;
    }
    if (unused >= 0) s.cr[0][unused].x = PT_UNUSED;
    for (a = 0; a < nc - 1; a++) for (b = a + 1; b < nc; b++) { list[a][b] = l[k++]; for (i = 0; i < 3; i++) { list[a][b][i].n = 0; list[a][b][i].p1 = 0; } }
    match_pairs(list, s.cd, &s.fr, &s.vpar, &s.cpar, s.cp);
    for (a = 0; a < nc - 1; a++) for (b = a + 1; b < nc; b++) {
        for (i = 0; i < s.num[a]; i++) {
            if (a == 0 && i == unused) { truth[n++] = list[a][b][i].n == 0; truth[n++] = list[a][b][i].p1 == 0; continue; }
            for (j = 0; j < 4; j++) e[j] = vg_epi(j, 100 + 10*a + i, x[4*a + i], 10 + a, 10 + b, pv[0], pv[1]);
            truth[n++] = found < 0 ? list[a][b][i].n <= 0 : list[a][b][i].n == found; truth[n++] = list[a][b][i].p1 == i;
            for (j = 0; j < found; j++) {
                truth[n++] = list[a][b][i].p2[j] == 2 - j;
                zero[z++] = list[a][b][i].dist[j] - vg_fc(1, j, e[0], e[1], e[2], e[3]); zero[z++] = list[a][b][i].corr[j] - vg_fc(2, j, e[0], e[1], e[2], e[3]);
            }
        }
    }
    /* the last search in every camera */
    for (b = 1; b < nc; b++) {
        a = b - 1; i = s.num[a] - 1; if (a == 0 && i == unused) i--;
        for (j = 0; j < 4; j++) e[j] = vg_epi(j, 100 + 10*a + i, x[4*a + i], 10 + a, 10 + b, pv[0], pv[1]);
        j = (i + 1) % 3;
        truth[n++] = s.tg[b][1].tnr == 2 && s.tg[b][1].pnr == 70 + b;
        if (!(a == 1 && j == 1) && !(a > 0 && j == 2)) truth[n++] = s.tg[b][1].n == 100*a + 10*j + 1 && s.tg[b][1].nx == 100*a + 10*j + 2 && s.tg[b][1].ny == 100*a + 10*j + 3 && s.tg[b][1].sumg == 100*a + 10*j + 4;
        zero[z++] = s.tg[b][2].x - vg_fc(0, e[0], e[1], e[2], e[3], 10 + b + pv[2]);
    }
}
#define PARGS double *R x, double *R pv, double *R zero, int *R truth
void W_pairs2(PARGS) { pairs(x, pv, zero, truth, 2, 2, -1); }
void W_pairs3(PARGS) { pairs(x, pv, zero, truth, 3, 1, -1); }
void W_pairs3u(PARGS) { pairs(x, pv, zero, truth, 3, 2, 1); }
void W_pairs2u(PARGS) { pairs(x, pv, zero, truth, 2, 1, 2); }
void W_pairs0(PARGS) { pairs(x, pv, zero, truth, 2, 0, -1); }
void W_pairs_out(PARGS) { pairs(x, pv, zero, truth, 3, -1, -1); }
/* groups: the pair lists are given as candidate numbers; scores are numbers that divide exactly, or free for a single group */
#define LIST(a, b, i) (&l[pairno[a][b]][i])
static const int pairno[4][4] = {{0, 0, 1, 2}, {0, 0, 3, 4}, {0, 0, 0, 5}};
static inline void lists(correspond *list[4][4], correspond l[6][3], int nc, int nt) {
    int a, b, i, k;
    for (a = 0; a < nc - 1; a++) for (b = a + 1; b < nc; b++) {
        list[a][b] = l[pairno[a][b]];
        for (i = 0; i < nt; i++) { list[a][b][i].p1 = i; list[a][b][i].n = 0; for (k = 0; k < 4; k++) { list[a][b][i].p2[k] = k % nt; list[a][b][i].corr[k] = 50; list[a][b][i].dist[k] = 3; } }
    }
}
static inline void add(correspond *list[4][4], int a, int b, int i, int p2, double corr, double dist) {
    correspond *c = &list[a][b][i];
    c->p2[c->n] = p2; c->corr[c->n] = corr; c->dist[c->n] = dist; c->n++;
}
/* one quadruplet among pairs that do not close: its score is the sum of its six pair scores over the sum of their distances */
void W_quad(double *R d, double *R zero, int *R truth) {
    correspond l[6][3], *list[4][4]; n_tupel s[5]; int n, i;
    lists(list, l, 4, 3);
    for (i = 0; i < 5; i++) s[i].p[0] = 77;
    add(list, 0, 1, 0, 2, 9, 1); add(list, 0, 1, 0, 1, d[0], d[6]); add(list, 0, 2, 0, 0, 9, 1); add(list, 0, 2, 0, 2, d[1], d[7]); add(list, 0, 3, 0, 1, 9, 1); add(list, 0, 3, 0, 0, d[2], d[8]);
    add(list, 1, 2, 1, 1, 9, 1); add(list, 1, 2, 1, 2, d[3], d[9]); add(list, 1, 3, 1, 0, d[4], d[10]); add(list, 2, 3, 2, 2, 9, 1); add(list, 2, 3, 2, 0, d[5], d[11]);
    add(list, 0, 1, 1, 1, 9, 1); add(list, 0, 2, 1, 2, 9, 1);
    n = four_camera_matching(list, 3, d[12], s, 5);
    truth[0] = n == ((d[0] + d[1] + d[2] + d[3] + d[4] + d[5])/(d[6] + d[7] + d[8] + d[9] + d[10] + d[11]) > d[12]);
    truth[1] = n == 0 || (s[0].p[0] == 0 && s[0].p[1] == 1 && s[0].p[2] == 2 && s[0].p[3] == 0);
    zero[0] = n == 0 ? 0 : s[0].corr - (d[0] + d[1] + d[2] + d[3] + d[4] + d[5])/(d[6] + d[7] + d[8] + d[9] + d[10] + d[11]);
}
/* all the pairs between the targets named: target a of every camera with target a of the others */
static inline void full(correspond *list[4][4], int nc, int i, double corr, int skipa, int skipb) {
    int a, b;
    for (a = 0; a < nc - 1; a++) for (b = a + 1; b < nc; b++) if (a != skipa || b != skipb) add(list, a, b, i, i, corr, 1);
}
static inline void quads(int accept, int room, int skipa, int skipb, const int *want, int nw, int *truth) {
    correspond l[6][3], *list[4][4]; n_tupel s[5]; int n, i, j, k = 0;
    lists(list, l, 4, 3);
    for (i = 0; i < 5; i++) { s[i].corr = -1; s[i].p[0] = 77; }
    full(list, 4, 0, 4, -1, -1); full(list, 4, 1, 2, skipa, skipb); full(list, 4, 2, 8, -1, -1);
    n = four_camera_matching(list, 3, accept, s, room);
    truth[k++] = n == nw;
    for (i = 0; i < nw; i++) { for (j = 0; j < 4; j++) truth[k++] = s[i].p[j] == want[i]; truth[k++] = s[i].corr == (want[i] == 0 ? 4 : want[i] == 1 ? 2 : 8); }
    for (; i < 5; i++) truth[k++] = s[i].p[0] == 77;
}
void W_quads(int *R truth) { const int w[] = {0, 1, 2}; quads(1, 5, -1, -1, w, 3, truth); }
void W_quads_accept(int *R truth) { const int w[] = {0, 2}; quads(2, 5, -1, -1, w, 2, truth); }
void W_quads_room(int *R truth) { const int w[] = {0, 1}; quads(1, 2, -1, -1, w, 2, truth); }
void W_quads_01(int *R truth) { const int w[] = {0, 2}; quads(1, 5, 0, 1, w, 2, truth); }
void W_quads_02(int *R truth) { const int w[] = {0, 2}; quads(1, 5, 0, 2, w, 2, truth); }
void W_quads_03(int *R truth) { const int w[] = {0, 2}; quads(1, 5, 0, 3, w, 2, truth); }
void W_quads_12(int *R truth) { const int w[] = {0, 2}; quads(1, 5, 1, 2, w, 2, truth); }
void W_quads_13(int *R truth) { const int w[] = {0, 2}; quads(1, 5, 1, 3, w, 2, truth); }
void W_quads_23(int *R truth) { const int w[] = {0, 2}; quads(1, 5, 2, 3, w, 2, truth); }
/* triplets: of the targets still free, all three pairs closing; the camera left out is marked -2 */
static inline void trip(int nc, int a, int b, int c, int used, double *d, double *zero, int *truth) {
    correspond l[6][3], *list[4][4]; n_tupel s[5]; int n, i, u[4][3] = {{0}}, *tu[4] = {u[0], u[1], u[2], u[3]}, cnt[4] = {3, 3, 3, 3}, p[4] = {-2, -2, -2, -2};
    lists(list, l, nc, 3);
    for (i = 0; i < 5; i++) s[i].p[0] = 77;
    add(list, a, b, 0, 0, 9, 1); add(list, a, b, 0, 2, d[0], d[3]); add(list, a, c, 0, 2, 9, 1); add(list, a, c, 0, 1, d[1], d[4]); add(list, b, c, 2, 0, 9, 1); add(list, b, c, 2, 1, d[2], d[5]);
    add(list, a, b, 1, 2, 9, 1); add(list, b, c, 0, 0, 9, 1); add(list, a, c, 2, 1, 9, 1);
    p[a] = 0; p[b] = 2; p[c] = 1;
    if (used >= 0) u[used][p[used]] = 1;
    if (used == -2) u[b][0] = u[c][2] = u[a][1] = 1; /* candidates tried before these are taken already */
    n = three_camera_matching(list, nc, cnt, d[6], s, 5, tu);
    if (used == a || used == b || used == c) { truth[0] = n == 0; truth[1] = s[0].p[0] == 77; return; }
    truth[0] = n == ((d[0] + d[1] + d[2])/(d[3] + d[4] + d[5]) > d[6]);
    truth[1] = n == 0 || (s[0].p[0] == p[0] && s[0].p[1] == p[1] && s[0].p[2] == p[2] && (nc == 3 || s[0].p[3] == p[3]));
    zero[0] = n == 0 ? 0 : s[0].corr - (d[0] + d[1] + d[2])/(d[3] + d[4] + d[5]);
    if (used == -1) for (i = 0; i < nc; i++) truth[2 + i] = u[i][0] == 0 && u[i][1] == 0 && u[i][2] == 0;
}
#define DZT double *R d, double *R zero, int *R truth
void W_trip_3(DZT) { trip(3, 0, 1, 2, -1, d, zero, truth); }
void W_trip_012(DZT) { trip(4, 0, 1, 2, -1, d, zero, truth); }
void W_trip_013(DZT) { trip(4, 0, 1, 3, -1, d, zero, truth); }
void W_trip_023(DZT) { trip(4, 0, 2, 3, -1, d, zero, truth); }
void W_trip_123(DZT) { trip(4, 1, 2, 3, -1, d, zero, truth); }
void W_trip_used0(DZT) { trip(4, 0, 1, 3, 0, d, zero, truth); }
void W_trip_used1(DZT) { trip(4, 0, 1, 3, 1, d, zero, truth); }
void W_trip_used3(DZT) { trip(4, 0, 1, 3, 3, d, zero, truth); }
void W_trip_used123(DZT) { trip(4, 1, 2, 3, 1, d, zero, truth); }
void W_trip_decoy3(DZT) { trip(3, 0, 1, 2, -2, d, zero, truth); }
void W_trip_decoy(DZT) { trip(4, 0, 1, 3, -2, d, zero, truth); }
void W_trip_decoy1(DZT) { trip(4, 1, 2, 3, -2, d, zero, truth); }
void W_trip_room(int *R truth) {
    correspond l[6][3], *list[4][4]; n_tupel s[5]; int n, i, u[4][3] = {{0}}, *tu[4] = {u[0], u[1], u[2], u[3]}, cnt[4] = {3, 3, 3, 3};
    lists(list, l, 3, 3);
    for (i = 0; i < 5; i++) s[i].p[0] = 77;
    for (i = 0; i < 3; i++) full(list, 3, i, 2 + 2*i, -1, -1);
    n = three_camera_matching(list, 3, cnt, 1, s, 2, tu);
    truth[0] = n == 2 && s[0].p[0] == 0 && s[1].p[0] == 1 && s[2].p[0] == 77; truth[1] = s[0].corr == 2 && s[1].corr == 4;
}
/* pairs: of free targets, and only where there is no other candidate */
static inline void pair(int nc, int a, int b, int used, int extra, double *d, double *zero, int *truth) {
    correspond l[6][3], *list[4][4]; n_tupel s[5]; int n, i, u[4][3] = {{0}}, *tu[4] = {u[0], u[1], u[2], u[3]}, cnt[4] = {3, 3, 3, 3}, p[4] = {-2, -2, -2, -2};
    lists(list, l, nc, 3);
    for (i = 0; i < 5; i++) s[i].p[0] = 77;
    add(list, a, b, 1, 2, d[0], d[1]); add(list, a, b, 0, 1, 9, 1); add(list, a, b, 0, 0, 9, 1);
    if (extra) add(list, a, b, 1, 0, 9, 1);
    p[a] = 1; p[b] = 2;
    if (used >= 0) u[used][p[used]] = 2;
    n = consistent_pair_matching(list, nc, cnt, d[2], s, 5, tu);
    if (used >= 0 || extra) { truth[0] = n == 0; truth[1] = s[0].p[0] == 77; return; }
    truth[0] = n == (d[0]/d[1] > d[2]);
    truth[1] = n == 0 || (s[0].p[0] == p[0] && s[0].p[1] == p[1] && (nc < 3 || s[0].p[2] == p[2]) && (nc < 4 || s[0].p[3] == p[3]));
    zero[0] = n == 0 ? 0 : s[0].corr - d[0]/d[1];
    for (i = 0; i < nc; i++) truth[2 + i] = u[i][0] == 0 && u[i][1] == 0 && u[i][2] == 0;
}
void W_pair_2(DZT) { pair(2, 0, 1, -1, 0, d, zero, truth); }
void W_pair_3(DZT) { pair(3, 0, 2, -1, 0, d, zero, truth); }
void W_pair_01(DZT) { pair(4, 0, 1, -1, 0, d, zero, truth); }
void W_pair_03(DZT) { pair(4, 0, 3, -1, 0, d, zero, truth); }
void W_pair_12(DZT) { pair(4, 1, 2, -1, 0, d, zero, truth); }
void W_pair_23(DZT) { pair(4, 2, 3, -1, 0, d, zero, truth); }
void W_pair_used(DZT) { pair(3, 0, 2, 0, 0, d, zero, truth); }
void W_pair_used2(DZT) { pair(3, 0, 2, 2, 0, d, zero, truth); }
void W_pair_two(DZT) { pair(4, 1, 3, -1, 1, d, zero, truth); }
void W_pair_decoy(DZT) {
    correspond l[6][3], *list[4][4]; n_tupel s[5]; int n, u[4][3] = {{0}}, *tu[4] = {u[0], u[1], u[2], u[3]}, cnt[4] = {3, 3, 3, 3};
    lists(list, l, 3, 3);
    add(list, 0, 2, 0, 1, 9, 1); add(list, 0, 2, 1, 0, 9, 1); add(list, 0, 2, 2, 2, d[0], d[1]); u[2][1] = 1; u[0][1] = 1;
    n = consistent_pair_matching(list, 3, cnt, d[2], s, 5, tu);
    truth[0] = n == (d[0]/d[1] > d[2]); truth[1] = n == 0 || (s[0].p[0] == 2 && s[0].p[1] == -2 && s[0].p[2] == 2);
}
void W_pair_room(int *R truth) {
    correspond l[6][3], *list[4][4]; n_tupel s[5]; int n, i, u[4][3] = {{0}}, *tu[4] = {u[0], u[1], u[2], u[3]}, cnt[4] = {3, 3, 3, 3};
    lists(list, l, 2, 3);
    for (i = 0; i < 5; i++) s[i].p[0] = 77;
    for (i = 0; i < 3; i++) full(list, 2, i, 2 + 2*i, -1, -1);
    n = consistent_pair_matching(list, 2, cnt, 1, s, 2, tu);
    truth[0] = n == 2 && s[0].p[0] == 0 && s[1].p[0] == 1 && s[2].p[0] == 77; truth[1] = s[0].corr == 2 && s[1].corr == 4;
}
/* the best groups first, each target used once, also not if used before; cameras left out do not count */
static inline void take(int nc, int n, const int *p, const int *corr, int usedcam, int usedt, const int *want, int nw, int *truth) {
    n_tupel s[4], d[4]; int i, j, k = 0, u[4][4] = {{0}}, w[4][4] = {{0}}, *tu[4] = {u[0], u[1], u[2], u[3]};
    for (i = 0; i < n; i++) { for (j = 0; j < 4; j++) s[i].p[j] = p[4*i + j]; s[i].corr = corr[i]; }
    for (i = 0; i < 4; i++) d[i].corr = -1;
    if (usedcam >= 0) u[usedcam][usedt] = w[usedcam][usedt] = 1;
    truth[k++] = take_best_candidates(s, d, nc, n, tu) == nw;
    for (i = 0; i < nw; i++) {
        for (j = 0; j < nc; j++) { truth[k++] = d[i].p[j] == p[4*want[i] + j]; if (p[4*want[i] + j] >= 0) w[j][p[4*want[i] + j]] = 1; }
        truth[k++] = d[i].corr == corr[want[i]];
    }
    for (; i < 4; i++) truth[k++] = d[i].corr == -1;
    for (i = 0; i < nc; i++) for (j = 0; j < 4; j++) truth[k++] = (u[i][j] > 0) == w[i][j];
}
void W_take_sorted(int *R truth) { const int p[] = {0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2}, c[] = {3, 7, 5}, w[] = {1, 2, 0}; take(4, 3, p, c, -1, 0, w, 3, truth); }
void W_take_clash(int *R truth) { const int p[] = {0, 0, 0, 0, 1, 1, 1, 0, 2, 2, 1, 2}, c[] = {3, 7, 5}, w[] = {1}; take(4, 3, p, c, -1, 0, w, 1, truth); }
void W_take_clash0(int *R truth) { const int p[] = {0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 2}, c[] = {3, 7, 5}, w[] = {1, 2}; take(4, 3, p, c, -1, 0, w, 2, truth); }
void W_take_skip(int *R truth) { const int p[] = {0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2}, c[] = {9, 5, 3}, w[] = {0, 2}; take(4, 3, p, c, -1, 0, w, 2, truth); }
void W_take_used(int *R truth) { const int p[] = {0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2}, c[] = {3, 7, 5}, w[] = {2, 0}; take(4, 3, p, c, 3, 1, w, 2, truth); }
void W_take_trip(int *R truth) { const int p[] = {-2, 0, 0, 0, 1, 1, -2, 1, 2, -2, 2, 2}, c[] = {3, 7, 5}, w[] = {1, 2, 0}; take(4, 3, p, c, -1, 0, w, 3, truth); }
void W_take_trip2(int *R truth) { const int p[] = {-2, 0, 0, 0, 1, 0, -2, 1, 2, -2, 2, 0}, c[] = {7, 3, 5}, w[] = {0}; take(4, 3, p, c, -1, 0, w, 1, truth); }
void W_take_3cams(int *R truth) { const int p[] = {0, 0, -2, 3, 1, -2, 1, 3, -2, 2, 2, 3}, c[] = {3, 7, 5}, w[] = {1, 2, 0}; take(3, 3, p, c, -1, 0, w, 3, truth); }
void W_take_none(int *R truth) { const int p[] = {0}, c[] = {0}, w[] = {0}; take(2, 0, p, c, -1, 0, w, 0, truth); }
