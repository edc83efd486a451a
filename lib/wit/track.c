/* tracking geometry */
#include "vg.h"
#include "calibration.h"
#include "parameters.h"
#include "track.h"
#include "imgcoord.h"
#include "trafo.h"
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
void W_predict(double a, double b, double c, double d, double *R zero) {
    vec2d p = {a, b}, q = {c, d}, o;
    predict(p, q, o);
    zero[0] = o[0] - 2*c + a; zero[1] = o[1] - 2*d + b;
}
void W_centre(vec3d p, vec3d c, double *R zero) {
    vec3d a, b, o; int i; vec_copy(a, p); vec_copy(b, c);
    search_volume_center_moving(a, b, o);
    for (i = 0; i < 3; i++) zero[i] = (o[i] - b[i]) - (b[i] - a[i]);   /* same step again */
    search_volume_center_moving(a, b, a);
}
void W_bounds(double x, double y, double z, track_par *R t, int *R truth) {
    vec3d p = {x, y, z};
    int in = x > t->dvxmin && x < t->dvxmax && y > t->dvymin && y < t->dvymax && z > t->dvzmin && z < t->dvzmax;
    truth[0] = (pos3d_in_bounds(p, t) != 0) == in;
}
static double clampd(double c) { return c > 1 ? 1 : c < -1 ? -1 : c; }
void W_angle(vec3d s, vec3d p, vec3d c, double *R zero, int *R need) {
    double an, ac, v[3], w[3], d[3], same; vec3d S, P, C; int i;
    vec_copy(S, s); vec_copy(P, p); vec_copy(C, c);
    angle_acc(S, P, C, &an, &ac);
    for (i = 0; i < 3; i++) { v[i] = P[i] - S[i]; w[i] = C[i] - S[i]; d[i] = v[i] - w[i]; }
    zero[0] = ac*ac - N3(d);
    zero[1] = ac - fabs(ac);
    /* both steps zero: any angle will do */
    need[0] = !(v[0] == w[0] && v[1] == w[1] && v[2] == w[2] && v[0] == -w[0] && v[1] == -w[1] && v[2] == -w[2]);
    if (v[0] == w[0] && v[1] == w[1] && v[2] == w[2]) zero[2] = an;
    else if (v[0] == -w[0] && v[1] == -w[1] && v[2] == -w[2]) zero[3] = an - 200;
    else zero[4] = an - 200./M_PI*acos(clampd(DOT(v, w)/vec_norm(v)/vec_norm(w)));
}
/* sort(): ascending, and every key keeps its value */
static inline void sorted(int n, float *k, int *v, double *R zero, int *R truth) {
    float a[4]; int b[4], i; double s0 = 0, s1 = 0, s2 = 0, s3 = 0, s4 = 0, s5 = 0;
    for (i = 0; i < n; i++) { a[i] = k[i]; b[i] = v[i]; }
    sort(n, a, b);
    for (i = 0; i < n; i++) {
        s0 += a[i] - (double)k[i]; s1 += b[i] - (double)v[i]; s2 += (double)a[i]*b[i] - (double)k[i]*v[i];
    }
    zero[0] = s0; zero[1] = s1; zero[2] = s2;
}
void W_sort1(float a, int x, double *R zero, int *R truth) { float k[1] = {a}; int v[1] = {x}; sorted(1, k, v, zero, truth); }
