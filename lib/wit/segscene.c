/* detection of targets by connectivity: small images, given in full (VG_PEEL 60, VG_RANGE, VG_PARTS 5) */
#include "vg.h"
#include <stdlib.h>
#include "parameters.h"
#include "segmentation.h"
typedef unsigned char u8;
typedef struct { u8 m[49]; target_par t; control_par cp; target p[6]; } S;
static inline void setup(S *s, int w, int h, int thr, int disco, int cam) {
    int i;
    for (i = 0; i < 49; i++) s->m[i] = 0;
    s->cp.imx = w; s->cp.imy = h;
    for (i = 0; i < 4; i++) s->t.gvthres[i] = i == cam ? thr : 999;
    s->t.discont = disco; s->t.nnmin = s->t.nxmin = s->t.nymin = 0; s->t.nnmax = s->t.nxmax = s->t.nymax = 99; s->t.sumg_min = 0; s->t.cr_sz = 0;
    for (i = 0; i < 6; i++) { s->p[i].n = s->p[i].nx = s->p[i].ny = s->p[i].sumg = s->p[i].tnr = s->p[i].pnr = -77; s->p[i].x = s->p[i].y = -77; }
}
#define PIX double *R zero, int *R truth, int *R need
/* found: the k-th target has these numbers */
static inline int is(S *s, int k, int n, int nx, int ny, int sumg) {
    return s->p[k].n == n && s->p[k].nx == nx && s->p[k].ny == ny && s->p[k].sumg == sumg && s->p[k].tnr == -1 && s->p[k].pnr == k;
}

#define T 10
/* given images: k x h grey values, the targets told by hand */
static inline void scene(int fit, int w, int h, const u8 *g, int disco, int x0, int x1, int y0, int y1, int nt, const int *want, const double *pos, PIX) {
    S s; int n, i;
    setup(&s, w, h, T, disco, 3);
    for (i = 0; i < w*h; i++) s.m[i] = g[i];
    n = fit ? peak_fit(s.m, &s.t, x0, x1, y0, y1, &s.cp, 3, s.p) : targ_rec(s.m, &s.t, x0, x1, y0, y1, &s.cp, 3, s.p);
    truth[0] = n == (nt < 0 ? 1 : nt);
    if (nt < 0) truth[1] = s.p[0].n == 1 && s.p[0].sumg == 1 && s.p[0].tnr == -1;   /* none found */
    if (nt < 0) nt = 0;
    for (i = 0; i < nt; i++) {
        truth[1 + i] = is(&s, i, want[4*i], want[4*i + 1], want[4*i + 2], want[4*i + 3]);
        zero[2*i] = s.p[i].x - pos[2*i]; zero[2*i + 1] = s.p[i].y - pos[2*i + 1];
    }
    for (i = 0; i < w*h; i++) truth[2 + nt + i] = s.m[i] == g[i];
}
void W_rec_scene_plus(PIX) {
    const u8 g[] = {0,0,0,0,0, 0,0,40,0,0, 0,20,60,45,0, 0,0,30,0,0, 0,0,0,0,0};
    const int w[] = {5, 3, 3, 195}; const double p[] = {0.5 + (1*10 + 2*(50 + 30 + 20) + 3*35)/145., 0.5 + (1*30 + 2*(50 + 10 + 35) + 3*20)/145.};
    scene(0, 5, 5, g, 5, 0, 5, 0, 5, 1, w, p, zero, truth, need);
}
void W_fit_scene_plus(PIX) {
    const u8 g[] = {0,0,0,0,0, 0,0,40,0,0, 0,20,60,45,0, 0,0,30,0,0, 0,0,0,0,0};
    const int w[] = {5, 3, 3, 195}; const double p[] = {0.5 + (1*20 + 2*(60 + 40 + 30) + 3*45)/195., 0.5 + (1*40 + 2*(60 + 20 + 45) + 3*30)/195.};
    scene(1, 5, 5, g, 5, 0, 5, 0, 5, 1, w, p, zero, truth, need);
}
void W_rec_scene_valley(PIX) {
    const u8 g[] = {0,0,0,0,0, 0,30,20,40,0, 0,0,0,0,0};
    const int w[] = {1, 1, 1, 30, 2, 2, 1, 60}; const double p[] = {1.5, 1.5, 0.5 + (2*10 + 3*30)/40., 1.5};
    scene(0, 5, 3, g, 5, 0, 5, 0, 3, 2, w, p, zero, truth, need);
}
/* two peaks apart by little more than the discontinuity but within it at the valley: one target */
void W_rec_scene_one(PIX) {
    const u8 g[] = {0,0,0,0,0, 0,30,20,25,0, 0,0,0,0,0};
    const int w[] = {3, 3, 1, 75}; const double p[] = {0.5 + (20 + 2*10 + 3*15)/45., 1.5};
    scene(0, 5, 3, g, 5, 0, 5, 0, 3, 1, w, p, zero, truth, need);
}
/* diagonal neighbours do not belong together; the search window leaves out what is beside it */
void W_rec_scene_diagonal(PIX) {
    const u8 g[] = {0,0,0,0, 0,30,0,0, 0,0,30,0, 0,0,0,0};
    const int w[] = {1, 1, 1, 30, 1, 1, 1, 30}; const double p[] = {1.5, 1.5, 2.5, 2.5};
    scene(0, 4, 4, g, 5, 0, 4, 0, 4, 2, w, p, zero, truth, need);
}
void W_rec_scene_window_x(PIX) {
    const u8 g[] = {0,0,0,0,0, 0,30,0,40,0, 0,0,0,0,0};
    const int w[] = {1, 1, 1, 40}; const double p[] = {3.5, 1.5};
    scene(0, 5, 3, g, 5, 2, 5, 0, 3, 1, w, p, zero, truth, need);
}
void W_rec_scene_window_y(PIX) {
    const u8 g[] = {0,0,0, 0,30,0, 0,0,0, 0,40,0, 0,0,0};
    const int w[] = {1, 1, 1, 30}; const double p[] = {1.5, 1.5};
    scene(0, 3, 5, g, 5, 0, 3, 0, 3, 1, w, p, zero, truth, need);
}
void W_fit_scene_window_x(PIX) {
    const u8 g[] = {0,0,0,0,0, 0,30,0,40,0, 0,0,0,0,0, 0,0,0,0,0};
    const int w[] = {1, 1, 1, 30}; const double p[] = {1.5, 1.5};
    scene(1, 5, 4, g, 5, 0, 3, 0, 4, 1, w, p, zero, truth, need);
}
/* touching peaks less than two pixels apart are united, whatever lies between; others are kept apart across a deep valley */
void W_fit_scene_close(PIX) {
    const u8 g[] = {0,0,0,0,0, 0,90,20,80,0, 0,0,0,0,0, 0,0,0,0,0};
    const int w[] = {3, 3, 1, 190}; const double p[] = {0.5 + (90 + 40 + 240)/190., 1.5};
    scene(1, 5, 4, g, 5, 0, 5, 0, 4, 1, w, p, zero, truth, need);
}
void W_fit_scene_deep(PIX) {
    const u8 g[] = {0,0,0,0,0,0, 0,90,20,20,80,0, 0,0,0,0,0,0, 0,0,0,0,0,0};
    const int w[] = {2, 2, 1, 110, 2, 2, 1, 100}; const double p[] = {0.5 + (90 + 40)/110., 1.5, 0.5 + (60 + 320)/100., 1.5};
    scene(1, 6, 4, g, 5, 0, 6, 0, 4, 2, w, p, zero, truth, need);
}
/* touching at a corner: united across a pixel that is not much darker, however bright the peaks */
void W_fit_scene_corner_one(PIX) {
    const u8 g[] = {0,0,0,0,0,0, 0,90,90,10,0,0, 0,0,10,90,90,0, 0,0,0,0,0,0, 0,0,0,0,0,0};
    const int w[] = {4, 4, 2, 360}; const double p[] = {3, 2};
    scene(1, 6, 5, g, 80, 0, 6, 0, 5, 1, w, p, zero, truth, need);
}
void W_fit_scene_corner_bright(PIX) {
    const u8 g[] = {0,0,0,0,0,0, 0,240,240,10,0,0, 0,0,10,240,240,0, 0,0,0,0,0,0, 0,0,0,0,0,0};
    const int w[] = {4, 4, 2, 960}; const double p[] = {3, 2};
    scene(1, 6, 5, g, 240, 0, 6, 0, 5, 1, w, p, zero, truth, need);
}
/* generated from an independent description of the two detectors */
void W_rec_diag_se(PIX) { const u8 g[] = {0,0,0,0,0,  0,30,0,0,0,  0,0,40,0,0,  0,0,0,0,0,  0,0,0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 60/30., 0.5 + 60/30.}; scene(0, 5, 5, g, 5, 0, 5, 0, 5, 1, w, p, zero, truth, need); }
void W_fit_diag_se(PIX) { const u8 g[] = {0,0,0,0,0,  0,30,0,0,0,  0,0,40,0,0,  0,0,0,0,0,  0,0,0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 80/40., 0.5 + 80/40.}; scene(1, 5, 5, g, 5, 0, 5, 0, 5, 1, w, p, zero, truth, need); }
void W_rec_diag_sw(PIX) { const u8 g[] = {0,0,0,0,0,  0,0,0,30,0,  0,0,40,0,0,  0,0,0,0,0,  0,0,0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 60/30., 0.5 + 60/30.}; scene(0, 5, 5, g, 5, 0, 5, 0, 5, 1, w, p, zero, truth, need); }
void W_fit_diag_sw(PIX) { const u8 g[] = {0,0,0,0,0,  0,0,0,30,0,  0,0,40,0,0,  0,0,0,0,0,  0,0,0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 80/40., 0.5 + 80/40.}; scene(1, 5, 5, g, 5, 0, 5, 0, 5, 1, w, p, zero, truth, need); }
void W_rec_diag_ne(PIX) { const u8 g[] = {0,0,0,0,0,  0,0,0,0,0,  0,0,40,0,0,  0,30,0,0,0,  0,0,0,0,0}; const int w[] = {1, 1, 1, 40, 1, 1, 1, 30}; const double p[] = {0.5 + 60/30., 0.5 + 60/30., 0.5 + 20/20., 0.5 + 60/20.}; scene(0, 5, 5, g, 5, 0, 5, 0, 5, 2, w, p, zero, truth, need); }
void W_fit_diag_ne(PIX) { const u8 g[] = {0,0,0,0,0,  0,0,0,0,0,  0,0,40,0,0,  0,30,0,0,0,  0,0,0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 80/40., 0.5 + 80/40.}; scene(1, 5, 5, g, 5, 0, 5, 0, 5, 1, w, p, zero, truth, need); }
void W_rec_diag_nw(PIX) { const u8 g[] = {0,0,0,0,0,  0,0,0,0,0,  0,0,40,0,0,  0,0,0,30,0,  0,0,0,0,0}; const int w[] = {1, 1, 1, 40, 1, 1, 1, 30}; const double p[] = {0.5 + 60/30., 0.5 + 60/30., 0.5 + 60/20., 0.5 + 60/20.}; scene(0, 5, 5, g, 5, 0, 5, 0, 5, 2, w, p, zero, truth, need); }
void W_fit_diag_nw(PIX) { const u8 g[] = {0,0,0,0,0,  0,0,0,0,0,  0,0,40,0,0,  0,0,0,30,0,  0,0,0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 80/40., 0.5 + 80/40.}; scene(1, 5, 5, g, 5, 0, 5, 0, 5, 1, w, p, zero, truth, need); }
void W_rec_beside_below(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,0,0,0,0,  0,60,50,0,0,0,  0,0,90,0,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 1, 2, 140}; const double p[] = {0.5 + 240/120., 0.5 + 320/120.}; scene(0, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_fit_beside_below(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,0,0,0,0,  0,60,50,0,0,0,  0,0,90,0,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 1, 2, 140}; const double p[] = {0.5 + 280/140., 0.5 + 370/140.}; scene(1, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_rec_beside_above(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,90,0,0,0,  0,60,50,0,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 1, 2, 140, 1, 1, 1, 60}; const double p[] = {0.5 + 240/120., 0.5 + 280/120., 0.5 + 50/50., 0.5 + 150/50.}; scene(0, 6, 6, g, 5, 0, 6, 0, 6, 2, w, p, zero, truth, need); }
void W_fit_beside_above(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,90,0,0,0,  0,60,50,0,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 1, 2, 140}; const double p[] = {0.5 + 280/140., 0.5 + 330/140.}; scene(1, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_rec_beside_left(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,0,50,60,0,  0,0,0,90,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 1, 2, 140}; const double p[] = {0.5 + 360/120., 0.5 + 320/120.}; scene(0, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_fit_beside_left(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,0,50,60,0,  0,0,0,90,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 1, 2, 140}; const double p[] = {0.5 + 420/140., 0.5 + 370/140.}; scene(1, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_rec_beside_right(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,60,0,0,0,  0,0,50,90,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 2, 1, 140}; const double p[] = {0.5 + 320/120., 0.5 + 240/120.}; scene(0, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_fit_beside_right(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,60,0,0,0,  0,0,50,90,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 2, 1, 140}; const double p[] = {0.5 + 370/140., 0.5 + 280/140.}; scene(1, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_rec_beside_right_up(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,50,90,0,0,  0,0,60,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 2, 1, 140, 1, 1, 1, 60}; const double p[] = {0.5 + 320/120., 0.5 + 360/120., 0.5 + 100/50., 0.5 + 200/50.}; scene(0, 6, 6, g, 5, 0, 6, 0, 6, 2, w, p, zero, truth, need); }
void W_fit_beside_right_up(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0,  0,0,50,90,0,0,  0,0,60,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 2, 1, 140}; const double p[] = {0.5 + 370/140., 0.5 + 420/140.}; scene(1, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_rec_beside_beyond(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,60,50,90,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {1, 1, 1, 60, 2, 2, 1, 140}; const double p[] = {0.5 + 50/50., 0.5 + 50/50., 0.5 + 320/120., 0.5 + 120/120.}; scene(0, 6, 4, g, 5, 0, 6, 0, 4, 2, w, p, zero, truth, need); }
void W_fit_beside_beyond(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,60,50,90,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {3, 3, 1, 200}; const double p[] = {0.5 + 430/200., 0.5 + 200/200.}; scene(1, 6, 4, g, 5, 0, 6, 0, 4, 1, w, p, zero, truth, need); }
void W_rec_arms(PIX) { const u8 g[] = {0,0,0,0,0,0,0,  0,0,0,20,0,0,0,  0,0,0,30,0,0,0,  0,15,35,60,45,25,0,  0,0,0,50,0,0,0,  0,0,0,40,0,0,0,  0,0,0,0,0,0,0}; const int w[] = {9, 5, 5, 320}; const double p[] = {0.5 + 720/230., 0.5 + 750/230.}; scene(0, 7, 7, g, 5, 0, 7, 0, 7, 1, w, p, zero, truth, need); }
void W_fit_arms(PIX) { const u8 g[] = {0,0,0,0,0,0,0,  0,0,0,20,0,0,0,  0,0,0,30,0,0,0,  0,15,35,60,45,25,0,  0,0,0,50,0,0,0,  0,0,0,40,0,0,0,  0,0,0,0,0,0,0}; const int w[] = {9, 5, 5, 320}; const double p[] = {0.5 + 990/320., 0.5 + 1020/320.}; scene(1, 7, 7, g, 5, 0, 7, 0, 7, 1, w, p, zero, truth, need); }
void W_rec_ring(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,30,28,26,0,0,  0,29,0,25,0,0,  0,28,27,26,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {8, 3, 3, 219}; const double p[] = {0.5 + 268/139., 0.5 + 275/139.}; scene(0, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_fit_ring(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,30,28,26,0,0,  0,29,0,25,0,0,  0,28,27,26,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {8, 3, 3, 219}; const double p[] = {0.5 + 428/219., 0.5 + 435/219.}; scene(1, 6, 6, g, 5, 0, 6, 0, 6, 1, w, p, zero, truth, need); }
void W_rec_three(PIX) { const u8 g[] = {0,0,0,0,0,0,0,  0,30,0,0,50,0,0,  0,0,0,0,0,40,0,  0,0,0,0,0,0,0,  0,20,0,0,0,0,0,  0,0,0,0,0,0,0}; const int w[] = {1, 1, 1, 30, 1, 1, 1, 50, 1, 1, 1, 40, 1, 1, 1, 20}; const double p[] = {0.5 + 20/20., 0.5 + 20/20., 0.5 + 160/40., 0.5 + 40/40., 0.5 + 150/30., 0.5 + 60/30., 0.5 + 10/10., 0.5 + 40/10.}; scene(0, 7, 6, g, 5, 0, 7, 0, 6, 4, w, p, zero, truth, need); }
void W_fit_three(PIX) { const u8 g[] = {0,0,0,0,0,0,0,  0,30,0,0,50,0,0,  0,0,0,0,0,40,0,  0,0,0,0,0,0,0,  0,20,0,0,0,0,0,  0,0,0,0,0,0,0}; const int w[] = {1, 1, 1, 30, 1, 1, 1, 50, 1, 1, 1, 20}; const double p[] = {0.5 + 30/30., 0.5 + 30/30., 0.5 + 200/50., 0.5 + 50/50., 0.5 + 20/20., 0.5 + 80/20.}; scene(1, 7, 6, g, 5, 0, 7, 0, 6, 3, w, p, zero, truth, need); }
void W_rec_corner_spot(PIX) { const u8 g[] = {20,0,0,0,  0,0,0,0,  0,0,30,0,  0,0,0,0}; const int w[] = {1, 1, 1, 30}; const double p[] = {0.5 + 40/20., 0.5 + 40/20.}; scene(0, 4, 4, g, 5, 0, 4, 0, 4, 1, w, p, zero, truth, need); }
void W_fit_corner_spot(PIX) { const u8 g[] = {20,0,0,0,  0,0,0,0,  0,0,30,0,  0,0,0,0}; const int w[] = {1, 1, 1, 30}; const double p[] = {0.5 + 60/30., 0.5 + 60/30.}; scene(1, 4, 4, g, 5, 0, 4, 0, 4, 1, w, p, zero, truth, need); }
void W_rec_dark(PIX) { const u8 g[] = {0,0,0,0,  0,9,10,0,  0,8,10,0,  0,0,0,0}; const int w[] = {1,1,1,1}; const double p[] = {1, 1}; scene(0, 4, 4, g, 5, 0, 4, 0, 4, -1, w, p, zero, truth, need); }
void W_fit_dark(PIX) { const u8 g[] = {0,0,0,0,  0,9,10,0,  0,8,10,0,  0,0,0,0}; const int w[] = {}; const double p[] = {}; scene(1, 4, 4, g, 5, 0, 4, 0, 4, 0, w, p, zero, truth, need); }
void W_rec_win_y0(PIX) { const u8 g[] = {0,0,0,  0,30,0,  0,0,0,  0,40,0,  0,0,0,  0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 30/30., 0.5 + 90/30.}; scene(0, 3, 6, g, 5, 0, 3, 2, 6, 1, w, p, zero, truth, need); }
void W_fit_win_y0(PIX) { const u8 g[] = {0,0,0,  0,30,0,  0,0,0,  0,40,0,  0,0,0,  0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 40/40., 0.5 + 120/40.}; scene(1, 3, 6, g, 5, 0, 3, 2, 6, 1, w, p, zero, truth, need); }
void W_rec_win_y1(PIX) { const u8 g[] = {0,0,0,  0,30,0,  0,0,0,  0,40,0,  0,0,0,  0,0,0}; const int w[] = {1, 1, 1, 30}; const double p[] = {0.5 + 20/20., 0.5 + 20/20.}; scene(0, 3, 6, g, 5, 0, 3, 0, 3, 1, w, p, zero, truth, need); }
void W_fit_win_y1(PIX) { const u8 g[] = {0,0,0,  0,30,0,  0,0,0,  0,40,0,  0,0,0,  0,0,0}; const int w[] = {1, 1, 1, 30}; const double p[] = {0.5 + 30/30., 0.5 + 30/30.}; scene(1, 3, 6, g, 5, 0, 3, 0, 3, 1, w, p, zero, truth, need); }
void W_rec_win_x0(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,30,0,40,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 90/30., 0.5 + 30/30.}; scene(0, 6, 4, g, 5, 2, 6, 0, 4, 1, w, p, zero, truth, need); }
void W_fit_win_x0(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,30,0,40,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {1, 1, 1, 40}; const double p[] = {0.5 + 120/40., 0.5 + 40/40.}; scene(1, 6, 4, g, 5, 2, 6, 0, 4, 1, w, p, zero, truth, need); }
void W_rec_win_cut(PIX) { const u8 g[] = {0,0,0,0,0,0,  0,30,29,28,0,0,  0,0,0,0,0,0,  0,0,0,0,0,0}; const int w[] = {2, 2, 1, 59}; const double p[] = {0.5 + 58/39., 0.5 + 39/39.}; scene(0, 6, 4, g, 5, 0, 3, 0, 4, 1, w, p, zero, truth, need); }
