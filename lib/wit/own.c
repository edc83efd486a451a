/* ownership: what a constructor allocates its destructor releases, each block once, also when memory runs out half way (VG_PEEL 30)
   VG_DEF malloc=vg_malloc calloc=vg_calloc free=vg_free */
#include <stdlib.h>
#include "vg.h"
#include "tracking_frame_buf.h"
#include "tracking_run.h"
#include "parameters.h"
#include "multimed.h"
#include "correspondences.h"
void fb_base_free(framebuf_base *self);
#define MAXB 40
/* every block begins with a count of its releases, before the part the library sees */
static long *blk[MAXB]; static int nblk, failat;
static inline void *take(long *p) { if (nblk + 1 == failat) { nblk++; return 0; } p[0] = 0; blk[nblk++] = p; return p + 2; }
void *vg_malloc(size_t n) { return take(__builtin_malloc(n + 16)); }
void *vg_calloc(size_t n, size_t m) { return take(__builtin_calloc(1, n * m + 16)); }
void vg_free(void *p) { if (p != NULL) ((long *) p)[-2]++; }
static inline void start(int at) { int i; for (i = 0; i < MAXB; i++) blk[i] = 0; nblk = 0; failat = at; }
#define END(least) do { int n = 0, i; truth[n++] = nblk >= (least); for (i = 0; i < MAXB; i++) truth[n++] = blk[i] == 0 || *blk[i] == 1; } while (0)
static inline void frames(int *truth, int nc) { frame f; start(0); frame_init(&f, nc, 3); free_frame(&f); END(1); }
void W_frame_1(int *R truth) { frames(truth, 1); }
void W_frame_2(int *R truth) { frames(truth, 2); }
void W_frame_4(int *R truth) { frames(truth, 4); }
static inline void bufs(int *truth, int len, int nc) { framebuf_base *b; start(0); b = vg_malloc(sizeof *b); fb_base_init(b, len, nc, 3); fb_base_free(b); vg_free(b); END(1); }
void W_buf_2_1(int *R truth) { bufs(truth, 2, 1); }
void W_buf_4_2(int *R truth) { bufs(truth, 4, 2); }
void W_buf_moved(int *R truth) { framebuf_base *b; start(0); b = vg_malloc(sizeof *b); fb_base_init(b, 3, 2, 3); fb_next(b); fb_next(b); fb_base_free(b); vg_free(b); END(1); }
static inline void seqs(int *truth, int nc) { sequence_par *s; start(0); s = new_sequence_par(nc); free_sequence_par(s); END(1); }
void W_seq_1(int *R truth) { seqs(truth, 1); }
void W_seq_4(int *R truth) { seqs(truth, 4); }
static inline void cpars(int *truth, int nc, int tiff, int hp) { control_par *s; start(0); s = new_control_par(nc); s->tiff_flag = tiff; s->hp_flag = hp; s->allCam_flag = hp; s->chfield = hp; s->imx = 8; s->imy = 8; free_control_par(s); END(1); }
void W_cpar_1(int a, int b, int *R truth) { cpars(truth, 1, a, b); }
void W_cpar_4(int a, int b, int *R truth) { cpars(truth, 4, a, b); }
static inline void marks(int *truth, int nc, int at) {
    int **t, ok; start(at); t = safely_allocate_target_usage_marks(nc); ok = nblk < at || (t != NULL) == (at == 0);
    if (t) deallocate_target_usage_marks(t, nc);
    END(1); truth[40] = truth[40] && ok;
}
void W_marks_2(int *R truth) { marks(truth, 2, 0); }
void W_marks_4(int *R truth) { marks(truth, 4, 0); }
void W_marks_fail1(int *R truth) { marks(truth, 3, 1); }
void W_marks_fail2(int *R truth) { marks(truth, 3, 2); }
void W_marks_fail4(int *R truth) { marks(truth, 3, 4); }
static inline void lists(int *truth, int nc, int at) {
    correspond *l[4][4]; int num[4] = {2, 1, 2, 3}, ok, r; start(at); r = safely_allocate_adjacency_lists(l, nc, num); ok = nblk < at || (r != 0) == (at == 0);
    if (r) deallocate_adjacency_lists(l, nc);
    END(1); truth[40] = truth[40] && ok;
}
void W_lists_2(int *R truth) { lists(truth, 2, 0); }
void W_lists_3(int *R truth) { lists(truth, 3, 0); }
void W_lists_4(int *R truth) { lists(truth, 4, 0); }
void W_lists_fail1(int *R truth) { lists(truth, 4, 1); }
void W_lists_fail3(int *R truth) { lists(truth, 4, 3); }
void W_lists_fail6(int *R truth) { lists(truth, 4, 6); }
/* a tracking run owns its frames and parameters, and leaves the calibrations alone */
void volumedimension(double *a, double *b, double *c, double *d, double *e, double *f, volume_par *v, control_par *cp, Calibration **cal) {}
static inline void runs(int *truth, int nc, int len) {
    Calibration *cal[2]; tracking_run *t;
    start(0);
    cal[0] = vg_malloc(sizeof(Calibration)); cal[1] = vg_malloc(sizeof(Calibration));
    t = tr_new(new_sequence_par(nc), vg_calloc(1, sizeof(track_par)), vg_calloc(1, sizeof(volume_par)), new_control_par(nc), len, 3, "a", "b", "c", cal, 1.0);
    tr_free(t); vg_free(t); vg_free(cal[0]); vg_free(cal[1]);
    END(1);
}
void W_run(int *R truth) { runs(truth, 2, 2); }
