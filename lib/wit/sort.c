/* sorting: every order of a few elements ends up sorted, and no element is lost, doubled or taken apart (VG_PEEL 60, VG_SPLIT) */
#include "vg.h"
#include "correspondences.h"
static inline int sorted(int n, const int *in, int *at, double *out, int *truth, int down) {
    int i, j, k = 0;
    for (i = 0; i + 1 < n; i++) truth[k++] = down ? out[i] >= out[i + 1] : out[i] <= out[i + 1];
    for (i = 0; i < n; i++) for (j = 0; j < i; j++) truth[k++] = at[i] != at[j];
    for (i = 0; i < n; i++) truth[k++] = at[i] >= 0 && at[i] < n;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) truth[k++] = at[i] != j || out[i] == in[j];
    return k;
}
static inline void con(int n, const int *v, int *truth) {
    n_tupel c[6]; int i, k, at[5]; double o[5];
    for (i = 0; i < n; i++) { c[i].corr = v[i]; c[i].p[0] = i; c[i].p[1] = 10 + i; c[i].p[2] = 20 + i; c[i].p[3] = 30 + i; }
    c[n].corr = 0; c[n].p[0] = 77;
    quicksort_con(c, n);
    for (i = 0; i < n; i++) { at[i] = c[i].p[0]; o[i] = c[i].corr; }
    k = sorted(n, v, at, o, truth, 1);
    for (i = 0; i < n; i++) truth[k++] = c[i].p[1] == 10 + at[i] && c[i].p[2] == 20 + at[i] && c[i].p[3] == 30 + at[i];
    truth[k++] = c[n].p[0] == 77 && c[n].corr == 0;
}
static inline void coord(int n, const int *v, int *truth) {
    coord_2d c[6]; int i, k, at[5]; double o[5];
    for (i = 0; i < n; i++) { c[i].x = v[i]; c[i].pnr = i; c[i].y = 10 - i; }
    c[n].x = 0; c[n].pnr = 77;
    quicksort_coord2d_x(c, n);
    for (i = 0; i < n; i++) { at[i] = c[i].pnr; o[i] = c[i].x; }
    k = sorted(n, v, at, o, truth, 0);
    for (i = 0; i < n; i++) truth[k++] = c[i].y == 10 - at[i];
    truth[k++] = c[n].pnr == 77 && c[n].x == 0;
}
static inline void targ(int n, const int *v, int *truth) {
    target c[6]; int i, k, at[5]; double o[5];
    for (i = 0; i < n; i++) { c[i].y = v[i]; c[i].pnr = i; c[i].x = 10 - i; c[i].n = 20 + i; c[i].nx = 30 + i; c[i].ny = 40 + i; c[i].sumg = 50 + i; c[i].tnr = 60 + i; }
    c[n].y = 0; c[n].pnr = 77;
    quicksort_target_y(c, n);
    for (i = 0; i < n; i++) { at[i] = c[i].pnr; o[i] = c[i].y; }
    k = sorted(n, v, at, o, truth, 0);
    for (i = 0; i < n; i++) truth[k++] = c[i].x == 10 - at[i] && c[i].n == 20 + at[i] && c[i].nx == 30 + at[i] && c[i].ny == 40 + at[i] && c[i].sumg == 50 + at[i] && c[i].tnr == 60 + at[i];
    truth[k++] = c[n].pnr == 77 && c[n].y == 0;
}
void W_con_0(int *R truth) { const int v[] = {0}; con(0, v, truth); }
void W_con_1_0(int *R truth) { const int v[] = {0}; con(1, v, truth); }
void W_con_2_00(int *R truth) { const int v[] = {0, 0}; con(2, v, truth); }
void W_con_2_01(int *R truth) { const int v[] = {0, 1}; con(2, v, truth); }
void W_con_2_10(int *R truth) { const int v[] = {1, 0}; con(2, v, truth); }
void W_con_3_000(int *R truth) { const int v[] = {0, 0, 0}; con(3, v, truth); }
void W_con_3_001(int *R truth) { const int v[] = {0, 0, 1}; con(3, v, truth); }
void W_con_3_010(int *R truth) { const int v[] = {0, 1, 0}; con(3, v, truth); }
void W_con_3_011(int *R truth) { const int v[] = {0, 1, 1}; con(3, v, truth); }
void W_con_3_012(int *R truth) { const int v[] = {0, 1, 2}; con(3, v, truth); }
void W_con_3_021(int *R truth) { const int v[] = {0, 2, 1}; con(3, v, truth); }
void W_con_3_100(int *R truth) { const int v[] = {1, 0, 0}; con(3, v, truth); }
void W_con_3_101(int *R truth) { const int v[] = {1, 0, 1}; con(3, v, truth); }
void W_con_3_102(int *R truth) { const int v[] = {1, 0, 2}; con(3, v, truth); }
void W_con_3_110(int *R truth) { const int v[] = {1, 1, 0}; con(3, v, truth); }
void W_con_3_120(int *R truth) { const int v[] = {1, 2, 0}; con(3, v, truth); }
void W_con_3_201(int *R truth) { const int v[] = {2, 0, 1}; con(3, v, truth); }
void W_con_3_210(int *R truth) { const int v[] = {2, 1, 0}; con(3, v, truth); }
void W_con_4_1011(int *R truth) { const int v[] = {1, 0, 1, 1}; con(4, v, truth); }
void W_con_4_1101(int *R truth) { const int v[] = {1, 1, 0, 1}; con(4, v, truth); }
void W_con_4_0121(int *R truth) { const int v[] = {0, 1, 2, 1}; con(4, v, truth); }
void W_con_4_1320(int *R truth) { const int v[] = {1, 3, 2, 0}; con(4, v, truth); }
void W_con_4_2103(int *R truth) { const int v[] = {2, 1, 0, 3}; con(4, v, truth); }
void W_con_4_0211(int *R truth) { const int v[] = {0, 2, 1, 1}; con(4, v, truth); }
void W_con_4_0112(int *R truth) { const int v[] = {0, 1, 1, 2}; con(4, v, truth); }
void W_con_4_0102(int *R truth) { const int v[] = {0, 1, 0, 2}; con(4, v, truth); }
void W_con_4_0010(int *R truth) { const int v[] = {0, 0, 1, 0}; con(4, v, truth); }
void W_con_4_2001(int *R truth) { const int v[] = {2, 0, 0, 1}; con(4, v, truth); }
void W_con_4_1100(int *R truth) { const int v[] = {1, 1, 0, 0}; con(4, v, truth); }
void W_con_4_0101(int *R truth) { const int v[] = {0, 1, 0, 1}; con(4, v, truth); }
void W_con_4_0122(int *R truth) { const int v[] = {0, 1, 2, 2}; con(4, v, truth); }
void W_con_4_1021(int *R truth) { const int v[] = {1, 0, 2, 1}; con(4, v, truth); }
void W_con_5_43210(int *R truth) { const int v[] = {4, 3, 2, 1, 0}; con(5, v, truth); }
void W_con_5_01234(int *R truth) { const int v[] = {0, 1, 2, 3, 4}; con(5, v, truth); }
void W_con_5_24031(int *R truth) { const int v[] = {2, 4, 0, 3, 1}; con(5, v, truth); }
void W_con_5_10101(int *R truth) { const int v[] = {1, 0, 1, 0, 1}; con(5, v, truth); }
void W_coord_0(int *R truth) { const int v[] = {0}; coord(0, v, truth); }
void W_coord_1_0(int *R truth) { const int v[] = {0}; coord(1, v, truth); }
void W_coord_2_00(int *R truth) { const int v[] = {0, 0}; coord(2, v, truth); }
void W_coord_2_01(int *R truth) { const int v[] = {0, 1}; coord(2, v, truth); }
void W_coord_2_10(int *R truth) { const int v[] = {1, 0}; coord(2, v, truth); }
void W_coord_3_000(int *R truth) { const int v[] = {0, 0, 0}; coord(3, v, truth); }
void W_coord_3_001(int *R truth) { const int v[] = {0, 0, 1}; coord(3, v, truth); }
void W_coord_3_010(int *R truth) { const int v[] = {0, 1, 0}; coord(3, v, truth); }
void W_coord_3_011(int *R truth) { const int v[] = {0, 1, 1}; coord(3, v, truth); }
void W_coord_3_012(int *R truth) { const int v[] = {0, 1, 2}; coord(3, v, truth); }
void W_coord_3_021(int *R truth) { const int v[] = {0, 2, 1}; coord(3, v, truth); }
void W_coord_3_100(int *R truth) { const int v[] = {1, 0, 0}; coord(3, v, truth); }
void W_coord_3_101(int *R truth) { const int v[] = {1, 0, 1}; coord(3, v, truth); }
void W_coord_3_102(int *R truth) { const int v[] = {1, 0, 2}; coord(3, v, truth); }
void W_coord_3_110(int *R truth) { const int v[] = {1, 1, 0}; coord(3, v, truth); }
void W_coord_3_120(int *R truth) { const int v[] = {1, 2, 0}; coord(3, v, truth); }
void W_coord_3_201(int *R truth) { const int v[] = {2, 0, 1}; coord(3, v, truth); }
void W_coord_3_210(int *R truth) { const int v[] = {2, 1, 0}; coord(3, v, truth); }
void W_coord_4_2310(int *R truth) { const int v[] = {2, 3, 1, 0}; coord(4, v, truth); }
void W_coord_4_1210(int *R truth) { const int v[] = {1, 2, 1, 0}; coord(4, v, truth); }
void W_coord_4_1023(int *R truth) { const int v[] = {1, 0, 2, 3}; coord(4, v, truth); }
void W_coord_4_0221(int *R truth) { const int v[] = {0, 2, 2, 1}; coord(4, v, truth); }
void W_coord_4_0121(int *R truth) { const int v[] = {0, 1, 2, 1}; coord(4, v, truth); }
void W_coord_4_1021(int *R truth) { const int v[] = {1, 0, 2, 1}; coord(4, v, truth); }
void W_coord_4_1001(int *R truth) { const int v[] = {1, 0, 0, 1}; coord(4, v, truth); }
void W_coord_4_0011(int *R truth) { const int v[] = {0, 0, 1, 1}; coord(4, v, truth); }
void W_coord_4_3012(int *R truth) { const int v[] = {3, 0, 1, 2}; coord(4, v, truth); }
void W_coord_4_1022(int *R truth) { const int v[] = {1, 0, 2, 2}; coord(4, v, truth); }
void W_coord_4_0312(int *R truth) { const int v[] = {0, 3, 1, 2}; coord(4, v, truth); }
void W_coord_4_0213(int *R truth) { const int v[] = {0, 2, 1, 3}; coord(4, v, truth); }
void W_coord_4_0211(int *R truth) { const int v[] = {0, 2, 1, 1}; coord(4, v, truth); }
void W_coord_4_0210(int *R truth) { const int v[] = {0, 2, 1, 0}; coord(4, v, truth); }
void W_coord_5_43210(int *R truth) { const int v[] = {4, 3, 2, 1, 0}; coord(5, v, truth); }
void W_coord_5_01234(int *R truth) { const int v[] = {0, 1, 2, 3, 4}; coord(5, v, truth); }
void W_coord_5_24031(int *R truth) { const int v[] = {2, 4, 0, 3, 1}; coord(5, v, truth); }
void W_coord_5_10101(int *R truth) { const int v[] = {1, 0, 1, 0, 1}; coord(5, v, truth); }
void W_targ_0(int *R truth) { const int v[] = {0}; targ(0, v, truth); }
void W_targ_1_0(int *R truth) { const int v[] = {0}; targ(1, v, truth); }
void W_targ_2_00(int *R truth) { const int v[] = {0, 0}; targ(2, v, truth); }
void W_targ_2_01(int *R truth) { const int v[] = {0, 1}; targ(2, v, truth); }
void W_targ_2_10(int *R truth) { const int v[] = {1, 0}; targ(2, v, truth); }
void W_targ_3_000(int *R truth) { const int v[] = {0, 0, 0}; targ(3, v, truth); }
void W_targ_3_001(int *R truth) { const int v[] = {0, 0, 1}; targ(3, v, truth); }
void W_targ_3_010(int *R truth) { const int v[] = {0, 1, 0}; targ(3, v, truth); }
void W_targ_3_011(int *R truth) { const int v[] = {0, 1, 1}; targ(3, v, truth); }
void W_targ_3_012(int *R truth) { const int v[] = {0, 1, 2}; targ(3, v, truth); }
void W_targ_3_021(int *R truth) { const int v[] = {0, 2, 1}; targ(3, v, truth); }
void W_targ_3_100(int *R truth) { const int v[] = {1, 0, 0}; targ(3, v, truth); }
void W_targ_3_101(int *R truth) { const int v[] = {1, 0, 1}; targ(3, v, truth); }
void W_targ_3_102(int *R truth) { const int v[] = {1, 0, 2}; targ(3, v, truth); }
void W_targ_3_110(int *R truth) { const int v[] = {1, 1, 0}; targ(3, v, truth); }
void W_targ_3_120(int *R truth) { const int v[] = {1, 2, 0}; targ(3, v, truth); }
void W_targ_3_201(int *R truth) { const int v[] = {2, 0, 1}; targ(3, v, truth); }
void W_targ_3_210(int *R truth) { const int v[] = {2, 1, 0}; targ(3, v, truth); }
void W_targ_4_1220(int *R truth) { const int v[] = {1, 2, 2, 0}; targ(4, v, truth); }
void W_targ_4_0112(int *R truth) { const int v[] = {0, 1, 1, 2}; targ(4, v, truth); }
void W_targ_4_1201(int *R truth) { const int v[] = {1, 2, 0, 1}; targ(4, v, truth); }
void W_targ_4_1302(int *R truth) { const int v[] = {1, 3, 0, 2}; targ(4, v, truth); }
void W_targ_4_2130(int *R truth) { const int v[] = {2, 1, 3, 0}; targ(4, v, truth); }
void W_targ_4_1012(int *R truth) { const int v[] = {1, 0, 1, 2}; targ(4, v, truth); }
void W_targ_4_0221(int *R truth) { const int v[] = {0, 2, 2, 1}; targ(4, v, truth); }
void W_targ_4_3012(int *R truth) { const int v[] = {3, 0, 1, 2}; targ(4, v, truth); }
void W_targ_4_2102(int *R truth) { const int v[] = {2, 1, 0, 2}; targ(4, v, truth); }
void W_targ_4_1023(int *R truth) { const int v[] = {1, 0, 2, 3}; targ(4, v, truth); }
void W_targ_4_3201(int *R truth) { const int v[] = {3, 2, 0, 1}; targ(4, v, truth); }
void W_targ_4_1101(int *R truth) { const int v[] = {1, 1, 0, 1}; targ(4, v, truth); }
void W_targ_4_0000(int *R truth) { const int v[] = {0, 0, 0, 0}; targ(4, v, truth); }
void W_targ_4_2100(int *R truth) { const int v[] = {2, 1, 0, 0}; targ(4, v, truth); }
void W_targ_5_43210(int *R truth) { const int v[] = {4, 3, 2, 1, 0}; targ(5, v, truth); }
void W_targ_5_01234(int *R truth) { const int v[] = {0, 1, 2, 3, 4}; targ(5, v, truth); }
void W_targ_5_24031(int *R truth) { const int v[] = {2, 4, 0, 3, 1}; targ(5, v, truth); }
void W_targ_5_10101(int *R truth) { const int v[] = {1, 0, 1, 0, 1}; targ(5, v, truth); }
