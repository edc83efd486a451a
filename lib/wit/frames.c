/* frames: which files a frame is read from and written to, the ring of frames, and what a tracking run is made of (VG_PEEL 8) */
#include "vg.h"
#include <stdlib.h>
#include "tracking_frame_buf.h"
#include "tracking_run.h"
#include "track.h"
#include "multimed.h"
#include "parameters.h"
/* a file name is told by its first two characters; its second character is the number of items found in it */
int read_targets(target *t, char *base, int frame_num) { t[0].pnr = base[0]; t[0].n = frame_num; t[0].nx++; return base[1]; }
int write_targets(target *t, int num, char *base, int frame_num) { t[1].pnr = base[0]; t[1].n = frame_num; t[1].nx++; t[1].ny = num; return base[1]; }
int read_path_frame(corres *c, P *p, char *a, char *l, char *r, int frame_num) {
    c[0].nr = a[0]; c[0].p[0] = l ? l[0] : 0; c[0].p[1] = r ? r[0] : 0; c[0].p[2] = frame_num; p[0].inlist++; return a[1];
}
int write_path_frame(corres *c, P *p, int n, char *a, char *l, char *r, int frame_num) {
    c[1].nr = a[0]; c[1].p[0] = l ? l[0] : 0; c[1].p[1] = r ? r[0] : 0; c[1].p[2] = frame_num; c[1].p[3] = n; p[1].inlist++; return a[1];
}
#define NC 3
typedef struct { frame fr; P path[2]; corres cor[2]; target tg[NC][2], *tp[NC]; int num[NC]; char nm[NC][2], *np[NC], ca[2], li[2], pr[2]; } scene;
static inline void setup(scene *s, frame *f, int nc, int base) {
    int i;
    memset(s, 0, sizeof *s);
    f->num_cams = nc; f->max_targets = 2; f->num_parts = 77; f->path_info = s->path; f->correspond = s->cor; f->targets = s->tp; f->num_targets = s->num;
    s->ca[0] = base + 1; s->ca[1] = 6; s->li[0] = base + 2; s->pr[0] = base + 3;
    for (i = 0; i < NC; i++) { s->tp[i] = s->tg[i]; s->np[i] = s->nm[i]; s->nm[i][0] = base + 4 + i; s->nm[i][1] = 20 + i; s->num[i] = 30 + i; }
}
/* particles first, then the targets of every camera from the files and into the place of that camera; failure is reported */
static inline void reads(int a, int *truth, int nc, int links, int badp, int badt) {
    scene s; int i, n = 0, r;
    setup(&s, &s.fr, nc, 40);
    if (badp) s.ca[1] = -1;
    if (badt >= 0) s.nm[badt][1] = -1;
    r = read_frame(&s.fr, s.ca, links ? s.li : NULL, links ? s.pr : NULL, s.np, a);
    truth[n++] = r == (badp || badt >= 0 ? 0 : 1);
    if (!badp && badt < 0) {
        truth[n++] = s.fr.num_parts == 6; truth[n++] = s.cor[0].nr == 41 && s.cor[0].p[0] == (links ? 42 : 0) && s.cor[0].p[1] == (links ? 43 : 0);
        truth[n++] = s.cor[0].p[2] == a; truth[n++] = s.path[0].inlist == 1;
        for (i = 0; i < nc; i++) {
            truth[n++] = s.tg[i][0].pnr == 44 + i; truth[n++] = s.tg[i][0].n == a; truth[n++] = s.tg[i][0].nx == 1; truth[n++] = s.num[i] == 20 + i;
        }
        for (; i < NC; i++) { truth[n++] = s.tg[i][0].nx == 0; truth[n++] = s.num[i] == 30 + i; }
    }
    truth[n++] = s.fr.num_cams == nc && s.fr.max_targets == 2;
}
void W_read(int a, int *R truth) { reads(a, truth, 3, 0, 0, -1); }
void W_read_links(int a, int *R truth) { reads(a, truth, 2, 1, 0, -1); }
void W_read_one(int a, int *R truth) { reads(a, truth, 1, 1, 0, -1); }
void W_read_nopath(int a, int *R truth) { reads(a, truth, 2, 1, 1, -1); }
void W_read_notarg(int a, int *R truth) { reads(a, truth, 3, 0, 0, 0); }
void W_read_notarg2(int a, int *R truth) { reads(a, truth, 3, 0, 0, 2); }
static inline void writes(int a, int *truth, int nc, int badp, int badt) {
    scene s; int i, n = 0, r;
    setup(&s, &s.fr, nc, 40);
    if (badp) s.ca[1] = 0;
    if (badt >= 0) s.nm[badt][1] = 0;
    r = write_frame(&s.fr, s.ca, s.li, s.pr, s.np, a);
    truth[n++] = r == (badp || badt >= 0 ? 0 : 1);
    if (!badp && badt < 0) {
        truth[n++] = s.cor[1].nr == 41 && s.cor[1].p[0] == 42 && s.cor[1].p[1] == 43; truth[n++] = s.cor[1].p[2] == a; truth[n++] = s.cor[1].p[3] == 77;
        truth[n++] = s.path[1].inlist == 1;
        for (i = 0; i < nc; i++) {
            truth[n++] = s.tg[i][1].pnr == 44 + i; truth[n++] = s.tg[i][1].n == a; truth[n++] = s.tg[i][1].nx == 1; truth[n++] = s.tg[i][1].ny == 30 + i;
        }
        for (; i < NC; i++) truth[n++] = s.tg[i][1].nx == 0;
    }
    truth[n++] = s.fr.num_cams == nc && s.fr.num_parts == 77;
    for (i = 0; i < NC; i++) truth[n++] = s.num[i] == 30 + i;
}
void W_write(int a, int *R truth) { writes(a, truth, 3, 0, -1); }
void W_write_one(int a, int *R truth) { writes(a, truth, 1, 0, -1); }
void W_write_nopath(int a, int *R truth) { writes(a, truth, 2, 1, -1); }
void W_write_notarg(int a, int *R truth) { writes(a, truth, 3, 0, 1); }
void W_write_notarg2(int a, int *R truth) { writes(a, truth, 3, 0, 2); }
/* a new frame is empty, with room of its own for every kind of item and camera */
void W_frame_init(int *R truth) {
    frame f; int i, n = 0;
    frame_init(&f, 3, 2);
    truth[n++] = f.num_cams == 3 && f.max_targets == 2 && f.num_parts == 0;
    for (i = 0; i < 3; i++) { truth[n++] = f.num_targets[i] == 0; f.targets[i][0].pnr = 10 + i; f.targets[i][1].pnr = 20 + i; }
    f.path_info[0].inlist = 1; f.path_info[1].inlist = 2; f.correspond[0].nr = 3; f.correspond[1].nr = 4;
    for (i = 0; i < 3; i++) { truth[n++] = f.targets[i][0].pnr == 10 + i; truth[n++] = f.targets[i][1].pnr == 20 + i; truth[n++] = f.num_targets[i] == 0; }
    truth[n++] = f.path_info[0].inlist == 1 && f.path_info[1].inlist == 2 && f.correspond[0].nr == 3 && f.correspond[1].nr == 4;
}
/* the ring: after k steps forward, place i holds the frame that was at place i + k; a step back undoes a step forward */
static inline void ring(int len, const char *step, int *truth) {
    framebuf_base b; int i, k = 0, n = 0; const char *c;
    fb_base_init(&b, len, 1, 2);
    for (i = 0; i < len; i++) b.buf[i]->num_parts = i;
    truth[n++] = b.buf_len == len && b.num_cams == 1;
    for (c = step; *c; c++) {
        if (*c == 'n') { fb_next(&b); k++; } else { fb_prev(&b); k += len - 1; }
        for (i = 0; i < len; i++) truth[n++] = b.buf[i]->num_parts == (i + k) % len;
    }
}
void W_ring_2(int *R truth) { ring(2, "nnnp", truth); }
void W_ring_3(int *R truth) { ring(3, "ppppnn", truth); }
void W_ring_4(int *R truth) { ring(4, "nnnnnpp", truth); }
/* reading replaces the last frame of the ring, from the files named at the start and the link files only when asked; writing takes the first */
static inline void disk(int a, int *truth, int len, int next, int links, int write) {
    framebuf fb; scene s[4]; frame *ring[8]; int i, n = 0, r, at = write ? next : (next + len - 1) % len;
    fb_init(&fb, len, 2, 2, s[0].ca, s[0].li, s[0].pr, s[0].np);
    for (i = 0; i < len; i++) { setup(&s[i], &s[i].fr, 2, 40 + 10*i); ring[i] = ring[i + len] = &s[i].fr; }
    fb.base._ring_vec = ring; fb.base.buf = ring;
    for (i = 0; i < next; i++) fb_next(&fb.base);
    r = write ? fb_write_frame_from_start(&fb.base, a) : fb_read_frame_at_end(&fb.base, a, links);
    truth[n++] = r == 1;
    for (i = 0; i < len; i++) {
        truth[n++] = s[i].path[write].inlist == (i == at); truth[n++] = s[i].path[!write].inlist == 0;
        truth[n++] = s[i].tg[0][write].pnr == (i == at ? 44 : 0); truth[n++] = s[i].tg[1][write].pnr == (i == at ? 45 : 0);
        truth[n++] = s[i].cor[write].nr == (i == at ? 41 : 0); truth[n++] = s[i].cor[write].p[0] == (i == at && links ? 42 : 0);
        truth[n++] = s[i].cor[write].p[1] == (i == at && links ? 43 : 0); truth[n++] = s[i].cor[write].p[2] == (i == at ? a : 0);
        truth[n++] = s[i].tg[0][write].n == (i == at ? a : 0);
    }
}
void W_disk_read(int a, int *R truth) { disk(a, truth, 4, 0, 0, 0); }
void W_disk_read_links(int a, int *R truth) { disk(a, truth, 4, 2, 1, 0); }
void W_disk_read_2(int a, int *R truth) { disk(a, truth, 2, 1, 1, 0); }
void W_disk_write(int a, int *R truth) { disk(a, truth, 4, 0, 1, 1); }
void W_disk_write_2(int a, int *R truth) { disk(a, truth, 3, 2, 1, 1); }
/* a tracking run keeps what it is given, measures links by the diagonal of the displacement bounds, and widens the volume to what the cameras see */
double vg_vd(int what, double x, double y) __attribute__((const));
void volumedimension(double *xmax, double *xmin, double *ymax, double *ymin, double *zmax, double *zmin, volume_par *v, control_par *c, Calibration **cal) {
    double k = c->pix_x + cal[0]->int_par.cc;
    *xmax = vg_vd(0, *xmax, k); *xmin = vg_vd(1, *xmin, k); *ymax = vg_vd(2, *ymax, k); *ymin = vg_vd(3, *ymin, k); *zmax = vg_vd(4, *zmax, k); *zmin = vg_vd(5, *zmin, k);
}
void W_run(double *R d, double *R zero, int *R truth) {
    sequence_par sp; track_par tp; volume_par vp; control_par cp; Calibration cal, *cl[1] = {&cal}; char c[2], l[2], p[2], nm[2], *np[1] = {nm}; tracking_run *r; framebuf *f;
    double k = d[0] + d[1];
    sp.img_base_name = np; cp.num_cams = 1; cp.pix_x = d[0]; cal.int_par.cc = d[1];
    tp.dvxmin = d[2]; tp.dvxmax = d[3]; tp.dvymin = d[4]; tp.dvymax = d[5]; tp.dvzmin = d[6]; tp.dvzmax = d[7];
    vp.X_lay[0] = d[8]; vp.X_lay[1] = d[9]; vp.Zmin_lay[0] = d[10]; vp.Zmin_lay[1] = d[11]; vp.Zmax_lay[0] = d[12]; vp.Zmax_lay[1] = d[13];
    r = tr_new(&sp, &tp, &vp, &cp, 4, 2, c, l, p, cl, d[14]);
    f = (framebuf *) r->fb;
    truth[0] = r->tpar == &tp; truth[1] = r->vpar == &vp; truth[2] = r->cpar == &cp; truth[3] = r->seq_par == &sp; truth[4] = r->cal == cl;
    truth[5] = f->corres_file_base == c; truth[6] = f->linkage_file_base == l; truth[7] = f->prio_file_base == p; truth[8] = f->target_file_base == np;
    truth[9] = f->base.buf_len == 4 && f->base.num_cams == 1; truth[10] = f->base.buf[0]->max_targets == 2 && f->base.buf[3]->num_cams == 1;
    zero[0] = r->flatten_tol - d[14]; zero[1] = r->lmax*r->lmax - ((d[2] - d[3])*(d[2] - d[3]) + (d[4] - d[5])*(d[4] - d[5]) + (d[6] - d[7])*(d[6] - d[7]));
    zero[2] = r->ymax - vg_vd(2, 0, k); zero[3] = r->ymin - vg_vd(3, 0, k); zero[4] = vp.X_lay[1] - vg_vd(0, d[9], k); zero[5] = vp.X_lay[0] - vg_vd(1, d[8], k);
    zero[6] = vp.Zmax_lay[1] - vg_vd(4, d[13], k); zero[7] = vp.Zmin_lay[0] - vg_vd(5, d[10], k); zero[8] = vp.Zmin_lay[1] - d[11]; zero[9] = vp.Zmax_lay[0] - d[12];
    zero[10] = r->npart; zero[11] = r->nlinks;
}
