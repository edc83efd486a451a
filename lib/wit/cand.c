/* candidate search in one image: exactly the usable targets inside the window, nearest first */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "track.h"
static inline int in(double x, double y, int used, double cx, double cy, double l, double r, double u, double d, int imx, int imy) {
    return used && x > 0 && x < imx && y > 0 && y < imy && x > cx - l && x < cx + r && y > cy - u && y < cy + d;
}
#define CARGS double cx, double cy, double p_l, double p_r, double p_u, double p_d, int imx, int imy
#define C cx, cy, p_l, p_r, p_u, p_d
#define INIMG (cx >= 0 && cx <= imx && cy >= 0 && cy <= imy)
void W_cand1(CARGS, double x, double y, int t, int *R truth, int *R need) {
    target g[1]; control_par cp; int p[4], n, k;
    cp.imx = imx; cp.imy = imy; g[0].x = x; g[0].y = y; g[0].tnr = t;
    need[0] = imx > 0 && imy > 0; need[1] = sqrt((cx - x)*(cx - x) + (cy - y)*(cy - y)) < 1e20;
    n = candsearch_in_pix(g, 1, C, p, &cp);
    k = INIMG && in(x, y, t != -1, C, imx, imy);
    truth[0] = n == k;
    truth[1] = p[0] == (k ? 0 : PT_UNUSED);
    truth[2] = p[1] == PT_UNUSED && p[2] == PT_UNUSED && p[3] == PT_UNUSED;
}
void W_rest1(CARGS, double x, double y, int t, int *R truth, int *R need) {
    target g[1]; control_par cp; int p[4], n, k;
    cp.imx = imx; cp.imy = imy; g[0].x = x; g[0].y = y; g[0].tnr = t;
    need[0] = imx > 0 && imy > 0; need[1] = sqrt((cx - x)*(cx - x) + (cy - y)*(cy - y)) < 1e20;
    n = candsearch_in_pix_rest(g, 1, C, p, &cp);
    k = INIMG && in(x, y, t == -1, C, imx, imy);
    truth[0] = n == k;
    truth[1] = p[0] == (k ? 0 : PT_UNUSED);
}
static inline double dist(double cx, double cy, target *t) { return sqrt((cx - t->x)*(cx - t->x) + (cy - t->y)*(cy - t->y)); }
/* several targets, all used and inside the window: order by distance */
static inline void order(int num, double cx, double cy, double *x, int rest, int *R truth, int *R need) {
    target g[6]; control_par cp; int p[6], n, i, j, k, r, q = 0, lim = rest ? 1 : 4; double d[6];
    cp.imx = 1000; cp.imy = 1000;
    cx = 450; cy = 400;
    for (i = 0; i < num; i++) {
        g[i].x = x[i]; g[i].y = 450 + i/16.; g[i].tnr = rest ? -1 : i;
        need[q++] = x[i] > 300 && x[i] < 600;
        d[i] = dist(cx, cy, &g[i]);
        need[q++] = d[i] < 1e20;
        for (j = 0; j < i; j++) need[q++] = d[j] != d[i];
    }
    n = rest ? candsearch_in_pix_rest(g, num, cx, cy, 300, 300, 300, 300, p, &cp) : candsearch_in_pix(g, num, cx, cy, 300, 300, 300, 300, p, &cp);
    k = 0;
    truth[k++] = n == (num < lim ? num : lim);
    for (i = 0; i < num; i++) {
        r = 0;
        for (j = 0; j < num; j++) r += d[j] < d[i];
        for (j = 0; j < lim; j++) truth[k++] = (r == j) == (p[j] == i);
    }
}
void W_order2(double a, double b, int *R truth, int *R need) { double x[2] = {a, b}; order(2, 0, 0, x, 0, truth, need); }
void W_order3(double a, double b, double c, int *R truth, int *R need) { double x[3] = {a, b, c}; order(3, 0, 0, x, 0, truth, need); }
/* five targets, one of them anywhere */
static inline void five(int k, double a, double b, double c, double d, double v, int *R truth, int *R need) {
    double o[4] = {a, b, c, d}, x[5]; int i;
    for (i = 0; i < 5; i++) x[i] = i == k ? v : o[i < k ? i : i - 1];
    order(5, 0, 0, x, 0, truth, need);
}
void W_rest2(double a, double b, int *R truth, int *R need) { double x[2] = {a, b}; order(2, 0, 0, x, 1, truth, need); }
void W_rest3(double a, double b, double c, int *R truth, int *R need) { double x[3] = {a, b, c}; order(3, 0, 0, x, 1, truth, need); }
void W_five_up0(double v, int *R truth, int *R need) { five(0, 460, 470, 480, 490, v, truth, need); }
void W_five_up1(double v, int *R truth, int *R need) { five(1, 460, 470, 480, 490, v, truth, need); }
void W_five_up2(double v, int *R truth, int *R need) { five(2, 460, 470, 480, 490, v, truth, need); }
void W_five_up3(double v, int *R truth, int *R need) { five(3, 460, 470, 480, 490, v, truth, need); }
void W_five_up4(double v, int *R truth, int *R need) { five(4, 460, 470, 480, 490, v, truth, need); }
void W_five_down0(double v, int *R truth, int *R need) { five(0, 490, 480, 470, 460, v, truth, need); }
void W_five_down1(double v, int *R truth, int *R need) { five(1, 490, 480, 470, 460, v, truth, need); }
void W_five_down2(double v, int *R truth, int *R need) { five(2, 490, 480, 470, 460, v, truth, need); }
void W_five_down3(double v, int *R truth, int *R need) { five(3, 490, 480, 470, 460, v, truth, need); }
void W_five_down4(double v, int *R truth, int *R need) { five(4, 490, 480, 470, 460, v, truth, need); }
void W_five_mix0(double v, int *R truth, int *R need) { five(0, 480, 460, 490, 470, v, truth, need); }
void W_five_mix1(double v, int *R truth, int *R need) { five(1, 480, 460, 490, 470, v, truth, need); }
void W_five_mix2(double v, int *R truth, int *R need) { five(2, 480, 460, 490, 470, v, truth, need); }
void W_five_mix3(double v, int *R truth, int *R need) { five(3, 480, 460, 490, 470, v, truth, need); }
void W_five_mix4(double v, int *R truth, int *R need) { five(4, 480, 460, 490, 470, v, truth, need); }
