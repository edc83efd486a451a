/* shared by the witness files */
#include <string.h>
#include <math.h>
#define R restrict
double vg_loop(int k) __attribute__((const));
double vg_out(int k) __attribute__((const));
double vg_next(int k) __attribute__((const));
#define N3(v) ((v)[0]*(v)[0] + (v)[1]*(v)[1] + (v)[2]*(v)[2])
#define DOT(a,b) ((a)[0]*(b)[0] + (a)[1]*(b)[1] + (a)[2]*(b)[2])
#define CROSS(a,b,k) ((a)[((k)+1)%3]*(b)[((k)+2)%3] - (a)[((k)+2)%3]*(b)[((k)+1)%3])
