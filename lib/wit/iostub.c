/* files read on top of an arbitrary calibration block */
#include "vg.h"
#include <stdio.h>
#include <stdlib.h>
#include "calibration.h"
#include "parameters.h"
#include "orientation.h"
#include "sortgrid.h"
int vg_in_i32(double file, int k) __attribute__((const));
double vg_in_double(double file, int k) __attribute__((const));
double vg_block(double file, int k, int c) __attribute__((const));
void vg_total(double file, int n);
#define TOK(s) (*(double *)(s))
#define NNvoid __attribute__((nonnull)) void
vec3d *read_calblock(int *num_points, char *filename) {
    vec3d *p = (vec3d *) malloc(5 * sizeof(vec3d));
    double f = TOK(filename);
    int i, j;
    for (i = 0; i < 5; i++) for (j = 0; j < 3; j++) p[i][j] = vg_block(f, i, j);
    *num_points = 5;
    return p;
}
/* the four points of camera `cam` are the block's points with the ids on line `cam` (from 0) of the file */
static inline void man(char *cb, char *mf, vec3d *fix, int cam, int a, int b, int c, int d, double *zero, int *need) {
    double f = TOK(mf), g = TOK(cb);
    int n = read_man_ori_fix(fix, cb, mf, cam), i, id[4] = {a, b, c, d};
    for (i = 0; i < 4; i++) need[i] = vg_in_i32(f, 4 * cam + i) == id[i];
    zero[0] = n - 4;
    for (i = 0; i < 12; i++) zero[1 + i] = fix[i / 3][i % 3] - vg_block(g, id[i / 3] - 1, i % 3);
    vg_total(f, 4 * cam + 4);
}
#define MA char *R cb, char *R mf, vec3d *R fix, double *R zero, int *R need
NNvoid W_man_ori0(MA) { man(cb, mf, fix, 0, 1, 2, 3, 4, zero, need); }
NNvoid W_man_ori1(MA) { man(cb, mf, fix, 1, 5, 2, 4, 1, zero, need); }
NNvoid W_man_ori3(MA) { man(cb, mf, fix, 3, 2, 5, 1, 3, zero, need); }
