/* image filters on whole images of fixed small sizes with arbitrary pixel values */
#include "vg.h"
#include "parameters.h"
#include "image_processing.h"
typedef unsigned char u8;
#define SIZE(w, h) control_par cp; cp.imx = w; cp.imy = h;
static inline void lowpass(u8 *R img, int w, int h, double *R zero) {
    u8 out[64]; int i, j, k, n = 0; SIZE(w, h)
    for (i = 0; i < w*h; i++) out[i] = 77;
    lowpass_3(img, out, &cp);
    for (i = 0; i < w*h; i++) {
        if (i <= w || i >= w*h - w - 1) { zero[n++] = out[i] - 77; continue; }
        k = 0;
        for (j = -1; j <= 1; j++) k += img[i + j*w - 1] + img[i + j*w] + img[i + j*w + 1];
        zero[n++] = out[i] - (u8)(k/9);
    }
}
void W_lowpass(u8 *R img, double *R zero) { lowpass(img, 5, 4, zero); }
void W_lowpass_tall(u8 *R img, double *R zero) { lowpass(img, 3, 6, zero); }
static inline void filter(u8 *R img, double a[9], int w, int h, double *R zero, int *R need) {
    u8 out[64]; int i, j, n = 0; double s = 0, v, f[3][3]; SIZE(w, h)
    for (i = 0; i < 9; i++) { f[i/3][i%3] = a[i]; s += a[i]; }
    for (i = 0; i < w*h; i++) out[i] = 77;
    zero[n++] = filter_3(img, out, f, &cp) - (s == 0 ? 0 : 1);
    for (i = 0; i < w*h; i++) {
        if (i <= w || i >= w*h - w - 1) { zero[n++] = out[i] - 77; continue; }
        v = 0;
        for (j = 0; j < 9; j++) v += a[j]*img[i + (j/3 - 1)*w + j%3 - 1];
        v /= s;
        if (v > 255) v = 255;
        if (v < 8) v = 8;
        zero[n++] = out[i] - (s == 0 ? 77 : (u8)v);
    }
}
void W_filter(u8 *R img, double a, double b, double c, double d, double e, double f, double g, double h, double i, double *R zero, int *R need) {
    double m[9] = {a, b, c, d, e, f, g, h, i};
    filter(img, m, 4, 5, zero, need);
}
void W_subtract(u8 *R a, u8 *R b, double *R zero) {
    u8 out[20]; int i; SIZE(5, 4)
    subtract_img(a, b, out, &cp);
    for (i = 0; i < 20; i++) zero[i] = out[i] - (a[i] < b[i] ? 0 : (u8)(a[i] - b[i]));
}
void W_mask(u8 *R a, u8 *R b, double *R zero) {
    u8 out[20]; int i; SIZE(5, 4)
    subtract_mask(a, b, out, &cp);
    for (i = 0; i < 20; i++) zero[i] = out[i] - (b[i] == 0 ? 0 : a[i]);
}
void W_copy(u8 *R a, double *R zero) {
    u8 out[21]; int i; SIZE(5, 4)
    out[20] = 9;
    copy_images(a, out, &cp);
    for (i = 0; i < 20; i++) zero[i] = out[i] - a[i];
    zero[20] = out[20] - 9;
}
static inline void spl(u8 *R a, int sel, int w, int h, double *R zero) {
    u8 out[64]; int i, j; SIZE(w, h)
    for (i = 0; i < w*h; i++) out[i] = a[i];
    split(out, sel, &cp);
    for (i = 0; i < h; i++) for (j = 0; j < w; j++)
        zero[i*w + j] = out[i*w + j] - (sel == 0 ? a[i*w + j] : i >= h/2 ? 2 : a[(2*i + (sel == 1))*w + j]);
}
void W_split0(u8 *R a, double *R zero) { spl(a, 0, 4, 6, zero); }
void W_split1(u8 *R a, double *R zero) { spl(a, 1, 4, 6, zero); }
void W_split2(u8 *R a, double *R zero) { spl(a, 2, 4, 6, zero); }
void W_split1_wide(u8 *R a, double *R zero) { spl(a, 1, 6, 4, zero); }
void W_split2_tall(u8 *R a, double *R zero) { spl(a, 2, 2, 8, zero); }
/* box blur: window means with a square window of half-width min(s, distance to the border) */
static inline void blur(u8 *R img, int s, int w, int h, double *R zero) {
    u8 out[64]; int i, j, k, q, n = 2*s + 1, row[64]; SIZE(w, h)
    if (fast_box_blur(s, img, out, &cp) == 0) return;          /* out of memory */
    for (i = 0; i < h; i++) for (j = 0; j < w; j++) {
        int e = j < w - 1 - j ? j : w - 1 - j, acc = 0; if (e > s) e = s;
        for (k = j - e; k <= j + e; k++) acc += img[i*w + k];
        row[i*w + j] = e == s ? acc : acc*n/(2*e + 1);
    }
    for (i = 0; i < h; i++) for (j = 0; j < w; j++) {
        int e = i < h - 1 - i ? i : h - 1 - i, acc = 0; if (e > s) e = s;
        for (k = i - e; k <= i + e; k++) acc += row[k*w + j];
        q = e == s ? acc/(n*n) : e == 0 ? acc/n : n*acc/(n*n)/(2*e + 1);
        zero[i*w + j] = out[i*w + j] - (u8)q;
    }
}
void W_blur1(u8 *R img, double *R zero) { blur(img, 1, 5, 4, zero); }
void W_blur2(u8 *R img, double *R zero) { blur(img, 2, 7, 6, zero); }
void W_blur1s(u8 *R img, double *R zero) { blur(img, 1, 3, 3, zero); }
