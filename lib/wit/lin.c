/* small dense linear algebra, at fixed sizes inside larger storage */
#include "vg.h"
#include "lsqadj.h"
void W_ata(double *R a, double *R zero) {
    double A[4][3], B[3][3]; int i, j, k, n = 0;
    for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) A[i][j] = a[3*i + j];
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) B[i][j] = 55;
    ata((double *)A, (double *)B, 4, 2, 3);
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) {
        double s = 0;
        for (k = 0; k < 4; k++) s += A[k][i]*A[k][j];
        zero[n++] = B[i][j] - (i < 2 && j < 2 ? s : 55);
    }
}
void W_atl(double *R a, double *R zero) {
    double A[4][3], l[4], u[3] = {5, 5, 5}; int i, j, k;
    for (i = 0; i < 4; i++) { for (j = 0; j < 3; j++) A[i][j] = a[3*i + j]; l[i] = a[12 + i]; }
    atl(u, (double *)A, l, 4, 2, 3);
    for (i = 0; i < 3; i++) {
        double s = 0;
        for (k = 0; k < 4; k++) s += A[k][i]*l[k];
        zero[i] = u[i] - (i < 2 ? s : 5);
    }
}
static inline void inverse(double *R a, int n, double *R zero) {
    double A[4][4], B[4][4]; int i, j, k, m = 0;
    for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) A[i][j] = B[i][j] = i < n && j < n ? a[n*i + j] : 7;
    matinv((double *)B, n, 4);
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
        double s = 0;
        for (k = 0; k < n; k++) s += A[i][k]*B[k][j];
        zero[m++] = s - (i == j);
    }
    for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) if (i >= n || j >= n) zero[m++] = B[i][j] - 7;
}
void W_g_inv1(double *R a, double *R zero) { inverse(a, 1, zero); }
void W_g_inv2(double *R a, double *R zero) { inverse(a, 2, zero); }
void W_g_inv3(double *R a, double *R zero) { inverse(a, 3, zero); }
static inline void mm(double *R a, int m, int n, int k, int ml, int nl, double *R zero) {
    double A[12], B[16], C[12]; int i, j, l, z = 0;
    for (i = 0; i < 12; i++) A[i] = 9;
    for (i = 0; i < ml*nl; i++) B[i] = a[i];
    for (i = 0; i < nl*k; i++) C[i] = a[16 + i];
    matmul(A, B, C, m, n, k, ml, nl);
    for (i = 0; i < 12; i++) {
        double s = 9;
        if (i/k < m) { s = 0; for (l = 0; l < n; l++) s += B[(i/k)*nl + l]*C[l*k + i%k]; }
        zero[z++] = A[i] - s;
    }
}
void W_matmul_331(double *R a, double *R zero) { mm(a, 3, 3, 1, 3, 3, zero); }
void W_matmul_333(double *R a, double *R zero) { mm(a, 3, 3, 3, 3, 3, zero); }
void W_matmul_221_44(double *R a, double *R zero) { mm(a, 2, 2, 1, 4, 4, zero); }
void W_matmul_231(double *R a, double *R zero) { mm(a, 2, 3, 1, 3, 4, zero); }
void W_matmul_uneven(double *R a, double *R zero) { mm(a, 2, 3, 1, 2, 5, zero); }
void W_matmul_tall(double *R a, double *R zero) { mm(a, 2, 3, 1, 4, 3, zero); }
