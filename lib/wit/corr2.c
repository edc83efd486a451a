/* the whole correspondence search on top of arbitrary group searches: larger groups first, and every target is told its group (VG_PEEL 30, VG_SPLIT) */
#include "vg.h"
#include <stdlib.h>
#include "correspondences.h"
int take_best_candidates(n_tupel *src, n_tupel *dst, int num_cams, int num_cands, int **tusage);
int fprintf(FILE *f, const char *s, ...) { return 0; }
#define NC 4
static int cams, asked[4], given[4], bad, stage, got;    /* which searches were asked for, in which order */
static double accept; static frame *theframe; static n_tupel *scratchbuf;
void match_pairs(correspond *list[4][4], coord_2d **corrected, frame *frm, volume_par *vpar, control_par *cpar, Calibration **calib) {
    asked[3]++; if (stage != 0 || frm != theframe) bad++;
    stage = 1;
}
static inline int search(int kind, int *cnt, double corr, n_tupel *s, int room) {
    asked[kind]++; if (stage < 1 || stage > kind + 1 || corr != accept || room != cams*nmax) bad++;
    stage = kind + 2; scratchbuf = s;
    return 30 + kind;
}
int four_camera_matching(correspond *list[4][4], int n, double corr, n_tupel *s, int room) { if (n != theframe->num_targets[0]) bad++; return search(0, NULL, corr, s, room); }
int three_camera_matching(correspond *list[4][4], int nc, int *cnt, double corr, n_tupel *s, int room, int **u) { if (nc != cams || cnt != theframe->num_targets || u[0][0] != got) bad++; return search(1, cnt, corr, s, room); }
int consistent_pair_matching(correspond *list[4][4], int nc, int *cnt, double corr, n_tupel *s, int room, int **u) { if (nc != cams || cnt != theframe->num_targets || u[0][0] != got) bad++; return search(2, cnt, corr, s, room); }
int take_best_candidates(n_tupel *src, n_tupel *dst, int nc, int n, int **u) {
    int i, j, k = stage - 2;
    if (nc != cams || src != scratchbuf || n != 30 + k || u[0][0] != got) bad++;
    for (i = 0; i < given[k]; i++) {
        for (j = 0; j < nc; j++) dst[i].p[j] = (j == 0 && k == 1) || (j >= 2 && k == 2) ? -2 : got + i;
        dst[i].corr = 100 + got + i;
    }
    got += given[k]; u[0][0] = got;
    return given[k];
}
static inline void all(double *d, int *truth, int nc, int only, int g0, int g1, int g2) {
    frame f; target tg[NC][6] = {{{0}}}, *tp[NC]; int num[NC] = {6, 5, 4, 3}, cnt[4] = {7, 7, 7, 7}, i, j, n = 0, q, t, p; coord_2d cr[NC][6], *cd[NC]; volume_par v; control_par c; Calibration *cal[NC]; n_tupel *r;
    cams = nc; bad = stage = got = 0; theframe = &f; v.corrmin = accept = d[0];
    for (i = 0; i < 4; i++) asked[i] = 0;
    given[0] = g0; given[1] = g1; given[2] = g2;
    f.num_cams = c.num_cams = nc; c.allCam_flag = only; f.targets = tp; f.num_targets = num;
    for (i = 0; i < nc; i++) { tp[i] = tg[i]; cd[i] = cr[i]; for (j = 0; j < 6; j++) { tg[i][j].tnr = -1; cr[i][j].pnr = (j + i) % 6; } }
    r = correspondences(&f, cd, &v, &c, cal, cnt);
    q = nc == 4 ? g0 : 0; t = nc == 3 || (nc == 4 && !only) ? g1 : 0; p = nc > 1 && !only ? g2 : 0;
    truth[n++] = bad == 0; truth[n++] = asked[3] == 1; truth[n++] = asked[0] == (nc == 4); truth[n++] = asked[1] == (nc == 3 || (nc == 4 && !only)); truth[n++] = asked[2] == (nc > 1 && !only);
    truth[n++] = cnt[0] == q; truth[n++] = cnt[1] == t; truth[n++] = cnt[2] == p; truth[n++] = cnt[3] == q + t + p;
    for (i = 0; i < q + t + p; i++) {
        truth[n++] = r[i].corr == 100 + i;
        for (j = 0; j < nc; j++) truth[n++] = r[i].p[j] == ((j == 0 && i >= q && i < q + t) || (j >= 2 && i >= q + t) ? -2 : i);
    }
    for (j = 0; j < nc; j++) for (i = 0; i < 6; i++)
        truth[n++] = tg[j][(i + j) % 6].tnr == (i < q + t + p && !((j == 0 && i >= q && i < q + t) || (j >= 2 && i >= q + t)) ? i : -1);
}
void W_all4(double *R d, int *R truth) { all(d, truth, 4, 0, 2, 1, 1); }
void W_all4_only(double *R d, int *R truth) { all(d, truth, 4, 1, 2, 1, 1); }
void W_all4_none(double *R d, int *R truth) { all(d, truth, 4, 0, 0, 0, 0); }
void W_all4_pairs(double *R d, int *R truth) { all(d, truth, 4, 0, 0, 0, 3); }
void W_all3(double *R d, int *R truth) { all(d, truth, 3, 0, 2, 2, 1); }
void W_all3_only(double *R d, int *R truth) { all(d, truth, 3, 1, 2, 2, 1); }
void W_all2(double *R d, int *R truth) { all(d, truth, 2, 0, 1, 1, 3); }
void W_all1(double *R d, int *R truth) { all(d, truth, 1, 0, 1, 1, 1); }
