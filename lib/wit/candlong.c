/* candidate search in long lists (VG_PEEL 60) */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "track.h"
/* the search starts early enough in a long list, wherever the window is; a window in image and list holds up to four targets */
static inline void many(int num, int lo, int hi, int rest, int *R truth) {
    target g[128]; control_par cp; int p[4], i, n, k = 0, q;
    cp.imx = cp.imy = 2000;
    for (i = 0; i < num; i++) { g[i].x = 500; g[i].y = 10*(i + 1); g[i].tnr = rest ? -1 : i; }
    /* nearest: the lower end */
    n = rest ? candsearch_in_pix_rest(g, num, 500, 10*(lo + 1), 5, 5, 5, 10*(hi - lo) + 5, p, &cp)
             : candsearch_in_pix(g, num, 500, 10*(lo + 1), 5, 5, 5, 10*(hi - lo) + 5, p, &cp);
    q = hi - lo + 1; if (rest) q = 1;
    truth[k++] = n == q;
    for (i = 0; i < q; i++) truth[k++] = p[i] == lo + i;
}
void W_many_30_0(int *R truth) { many(30, 0, 2, 0, truth); }
void W_many_30_27(int *R truth) { many(30, 27, 29, 0, truth); }
void W_many_37_10(int *R truth) { many(37, 10, 13, 0, truth); }
void W_many_62_0(int *R truth) { many(62, 0, 1, 0, truth); }
void W_many_62_31(int *R truth) { many(62, 31, 34, 0, truth); }
void W_many_62_58(int *R truth) { many(62, 58, 61, 0, truth); }
void W_many_100_5(int *R truth) { many(100, 5, 8, 0, truth); }
void W_many_100_48(int *R truth) { many(100, 48, 50, 0, truth); }
void W_many_100_77(int *R truth) { many(100, 77, 80, 0, truth); }
void W_many_127_0(int *R truth) { many(127, 0, 3, 0, truth); }
void W_many_127_123(int *R truth) { many(127, 123, 126, 0, truth); }
void W_manyrest_30_0(int *R truth) { many(30, 0, 0, 1, truth); }
void W_manyrest_30_29(int *R truth) { many(30, 29, 29, 1, truth); }
void W_manyrest_62_0(int *R truth) { many(62, 0, 0, 1, truth); }
void W_manyrest_62_33(int *R truth) { many(62, 33, 33, 1, truth); }
void W_manyrest_100_60(int *R truth) { many(100, 60, 60, 1, truth); }
void W_manyrest_127_0(int *R truth) { many(127, 0, 0, 1, truth); }
