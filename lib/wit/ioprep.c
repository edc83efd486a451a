/* preparing an image: which steps, on which images, in which order */
#include "vg.h"
#include <stdio.h>
#include <stdlib.h>
#include "parameters.h"
#include "image_processing.h"
typedef unsigned char u8;
double vg_in_double(double file, int k) __attribute__((const));
void vg_total(double file, int n);
#define TOK(s) (*(double *)(s))
int vg_blur(int i, int span, int px) __attribute__((const));
int vg_half(int i, int px) __attribute__((const));
/* blurring and field splitting are decided elsewhere */
int fast_box_blur(int span, u8 *src, u8 *dest, control_par *cp) { int i; for (i = 0; i < cp->imx*cp->imy; i++) dest[i] = vg_blur(i, span, src[i]); return span >= 0; }
void split(u8 *img, int half, control_par *cp) { int i; for (i = 0; i < cp->imx*cp->imy; i++) img[i] = vg_half(i + 100*half, img[i]); }
#define PX 20
static inline void begin(control_par *cp, u8 *img, u8 *hp, u8 *want, const u8 *in, int span, int ch, int w, int h) {
    int i, v;
    cp->imx = w; cp->imy = h; cp->chfield = ch;
    for (i = 0; i < w*h; i++) { img[i] = in[i]; hp[i] = 7; v = img[i] - (u8)vg_blur(i, span, img[i]); want[i] = v < 0 ? 0 : v; if (ch) want[i] = vg_half(i + 100*ch, want[i]); }
}
static inline void same(const u8 *img, const u8 *in, const u8 *hp, const u8 *want, double *zero, int px) { int i; for (i = 0; i < px; i++) { zero[1 + 2*i] = hp[i] - want[i]; zero[2 + 2*i] = img[i] - in[i]; } }
#define ARGS const u8 *R in, double *R zero
static inline void plain(const u8 *in, double *zero, int ch) { control_par cp; u8 img[PX], hp[PX], want[PX]; begin(&cp, img, hp, want, in, 3, ch, 5, 4); zero[0] = prepare_image(img, hp, 3, 0, 0, &cp) - 1; same(img, in, hp, want, zero, PX); }
void W_plain(ARGS) { plain(in, zero, 0); }
void W_odd(ARGS) { plain(in, zero, 1); }
void W_even(ARGS) { plain(in, zero, 2); }
void W_lowpass(ARGS) { control_par cp; u8 img[PX], hp[PX], want[PX], w2[PX]; int i; begin(&cp, img, hp, want, in, 1, 0, 5, 4); for (i = 0; i < PX; i++) w2[i] = want[i]; zero[0] = prepare_image(img, hp, 1, 1, 0, &cp) - 1; lowpass_3(want, w2, &cp); same(img, in, hp, w2, zero, PX); }
static inline void given(const u8 *in, double *zero, char *fn, int ch) {
    control_par cp; u8 img[PX], hp[PX], want[PX], w2[PX]; int i; double f[3][3], t = TOK(fn); begin(&cp, img, hp, want, in, 1, ch, 4, 3);
    for (i = 0; i < 12; i++) w2[i] = want[i];
    for (i = 0; i < 9; i++) f[i/3][i%3] = vg_in_double(t, i);
    zero[0] = prepare_image(img, hp, 1, 2, fn, &cp) - 1; filter_3(want, w2, f, &cp); same(img, in, hp, w2, zero, 12);
    vg_total(t, 9);
}
void W_filter(char *R fn, ARGS) { given(in, zero, fn, 0); }
/* a blur that fails is told */
void W_bad(ARGS) { control_par cp; u8 img[PX], hp[PX], want[PX]; begin(&cp, img, hp, want, in, 1, 0, 5, 4); zero[0] = prepare_image(img, hp, -1, 0, 0, &cp); }
