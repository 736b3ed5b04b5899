/* Curves for the harnesses: random curves built field by field, snapshots, comparison. */
#ifndef VP_H
#define VP_H
#include "vh.h"
#include "plCurve.h"
#include <float.h>
typedef struct { int nc; int nv[12], cc[12]; int open[12]; plc_vector *vt[12]; plc_color *clr[12]; int nclr[12]; int ncst; plc_constraint cst[200]; int nq; plc_vert_quant q[50]; } vp_snap;
static plc_vector vp_vec(double r) { plc_vector v; for (int k = 0; k < 3; k++) v.c[k] = vh_real(-r, r); return v; }
static plc_vector vp_ivec(int r) { plc_vector v; for (int k = 0; k < 3; k++) v.c[k] = vh_int(-r, r); return v; }
static plc_vector vp_unit(void) { for (;;) { plc_vector v = vp_vec(1); double n = sqrt(v.c[0] * v.c[0] + v.c[1] * v.c[1] + v.c[2] * v.c[2]); if (n > 0.2 && n < 1) { for (int k = 0; k < 3; k++) v.c[k] /= n; return v; } } }
static plc_color vp_col(void) { plc_color c = {vh_unit(), vh_unit(), vh_unit(), vh_unit()}; return c; }
static double vp_dot(plc_vector a, plc_vector b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
static plc_vector vp_cross(plc_vector a, plc_vector b) { plc_vector r = {{a.c[1] * b.c[2] - a.c[2] * b.c[1], a.c[2] * b.c[0] - a.c[0] * b.c[2], a.c[0] * b.c[1] - a.c[1] * b.c[0]}}; return r; }
static plc_vector vp_sub(plc_vector a, plc_vector b) { plc_vector r = {{a.c[0] - b.c[0], a.c[1] - b.c[1], a.c[2] - b.c[2]}}; return r; }
static plc_vector vp_add(plc_vector a, plc_vector b) { plc_vector r = {{a.c[0] + b.c[0], a.c[1] + b.c[1], a.c[2] + b.c[2]}}; return r; }
static plc_vector vp_mul(double s, plc_vector a) { plc_vector r = {{s * a.c[0], s * a.c[1], s * a.c[2]}}; return r; }
static double vp_len(plc_vector a) { return sqrt(vp_dot(a, a)); }
static double vp_dist(plc_vector a, plc_vector b) { return vp_len(vp_sub(a, b)); }
static int vp_near(double a, double b, double tol) { return fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)); }
static int vp_vnear(plc_vector a, plc_vector b, double tol) { return vp_dist(a, b) <= tol * (1 + vp_len(a) + vp_len(b)); }
static int vp_same(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }
static plc_vector vp_rot(plc_vector v, plc_vector k, double t) { /* Rodrigues, unit k */
  plc_vector r = vp_add(vp_mul(cos(t), v), vp_mul(sin(t), vp_cross(k, v)));
  return vp_add(r, vp_mul(vp_dot(k, v) * (1 - cos(t)), k));
}
/* hidden vertices as the library defines them */
static void vp_wrap(plCurve *L) {
  for (int i = 0; i < L->nc; i++) {
    plc_strand *s = &L->cp[i];
    if (s->nv < 3) s->open = true;
    if (s->nv < 2) continue;
    if (s->open) { s->vt[-1] = s->vt[1]; s->vt[s->nv] = s->vt[s->nv - 2]; }
    else { s->vt[-1] = s->vt[s->nv - 1]; s->vt[s->nv] = s->vt[0]; }
  }
}
enum { VP_NOCST = 1, VP_CLOSED = 2, VP_OPEN = 4, VP_NOWRAP = 8, VP_INT = 16, VP_QUANT = 32, VP_NOCLR = 64, VP_NULLCLR = 128, VP_NOSHORT = 256 };
static plc_constraint *vp_cst(int cmp, int vert, int n, int kind) {
  plc_constraint *c = calloc(1, sizeof *c);
  c->kind = kind; c->cmp = cmp; c->vert = vert; c->num_verts = n;
  c->vect[0] = kind == fixed ? vp_vec(4) : vp_unit();
  if (kind == line) c->vect[1] = vp_vec(4);
  if (kind == plane) { c->vect[1].c[0] = vh_real(-3, 3); c->vect[1].c[1] = c->vect[1].c[2] = 0; }
  if (kind != fixed && vh_int(0, 2) == 0) c->vect[0] = vp_mul(vh_real(0.5, 3), c->vect[0]);
  return c;
}
static plCurve *vp_rand(int maxnc, int maxnv, int fl) {
  plCurve *L = calloc(1, sizeof *L);
  L->nc = vh_int(1, maxnc);
  L->cp = calloc(L->nc, sizeof(plc_strand));
  for (int i = 0; i < L->nc; i++) {
    plc_strand *s = &L->cp[i];
    int lo = fl & VP_NOSHORT ? 3 : 1;
    s->nv = vh_int(0, 3) ? vh_int(lo, maxnv) : vh_int(lo, maxnv < 4 ? maxnv : 4);
    s->open = fl & VP_CLOSED ? 0 : fl & VP_OPEN ? 1 : vh_int(0, 1);
    s->vt = (plc_vector *)calloc(s->nv + 2, sizeof(plc_vector)) + 1;
    for (int j = 0; j < s->nv; j++) s->vt[j] = fl & VP_INT ? vp_ivec(3) : vp_vec(5);
    if (fl & VP_NOWRAP) s->vt[-1] = vp_vec(5), s->vt[s->nv] = vp_vec(5);
    int m = fl & VP_NOCLR ? 0 : (int)vh_int(0, 3);
    s->cc = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? s->nv : vh_int(0, s->nv);
    s->clr = (s->cc || !(fl & VP_NULLCLR) || vh_int(0, 1)) ? calloc(s->cc, sizeof(plc_color)) : NULL;
    for (int j = 0; j < s->cc; j++) s->clr[j] = vp_col();
  }
  if (!(fl & VP_NOWRAP)) vp_wrap(L);
  if (!(fl & VP_NOCST) && vh_int(0, 3)) { /* a well-formed list: by component and vertex, disjoint */
    plc_constraint **t = &L->cst;
    for (int i = 0; i < L->nc; i++)
      for (int v = vh_int(0, 2); v < L->cp[i].nv; v += vh_int(0, 2)) {
        int kind = vh_int(fixed, plane), n = kind == fixed ? 1 : vh_int(1, L->cp[i].nv - v);
        if (n > 4) n = 4;
        *t = vp_cst(i, v, n, kind);
        t = &(*t)->next; v += n;
        if (vh_int(0, 4) == 0) break;
      }
  }
  if (fl & VP_QUANT && vh_int(0, 2) == 0)
    for (int k = vh_int(1, 3); k; k--) { plc_vert_quant *q = calloc(1, sizeof *q); q->cmp = vh_int(0, L->nc - 1); q->quant = vh_unit(); strcpy(q->tag, "abc"); q->next = L->quant; L->quant = q; }
  return L;
}
static void vp_free(plCurve *L) {
  for (int i = 0; i < L->nc; i++) { free(L->cp[i].vt - 1); free(L->cp[i].clr); }
  free(L->cp);
  for (plc_constraint *c = L->cst, *n; c; c = n) { n = c->next; free(c); }
  for (plc_vert_quant *c = L->quant, *n; c; c = n) { n = c->next; free(c); }
  free(L);
}
static void vp_take(const plCurve *L, vp_snap *s) {
  memset(s, 0, sizeof *s);
  s->nc = L->nc;
  for (int i = 0; i < L->nc; i++) {
    s->nv[i] = L->cp[i].nv; s->cc[i] = L->cp[i].cc; s->open[i] = L->cp[i].open;
    s->vt[i] = malloc((s->nv[i] + 2) * sizeof(plc_vector)); memcpy(s->vt[i], L->cp[i].vt - 1, (s->nv[i] + 2) * sizeof(plc_vector)); s->vt[i]++;
    s->clr[i] = calloc(s->cc[i] + 1, sizeof(plc_color)); if (s->cc[i]) memcpy(s->clr[i], L->cp[i].clr, s->cc[i] * sizeof(plc_color));
  }
  for (plc_constraint *c = L->cst; c && s->ncst < 200; c = c->next) s->cst[s->ncst++] = *c;
  for (plc_vert_quant *c = L->quant; c && s->nq < 50; c = c->next) s->q[s->nq++] = *c;
}
static void vp_drop(vp_snap *s) { for (int i = 0; i < s->nc; i++) { free(s->vt[i] - 1); free(s->clr[i]); } }
/* compare a curve with a snapshot; parts: 1 shape, 2 vertices, 4 hidden vertices, 8 colours, 16 constraints, 32 quantifiers */
static char vp_buf[200];
static int vp_csteq(const plc_constraint *a, const plc_constraint *b) {
  return a->kind == b->kind && a->cmp == b->cmp && a->vert == b->vert && a->num_verts == b->num_verts && !memcmp(a->vect, b->vect, sizeof a->vect);
}
static const char *vp_diff(const plCurve *L, const vp_snap *s, int parts) {
#define VPD(...) { snprintf(vp_buf, sizeof vp_buf, __VA_ARGS__); return vp_buf; }
  if (L->nc != s->nc) VPD("%d components instead of %d", L->nc, s->nc)
  for (int i = 0; i < s->nc; i++) {
    plc_strand *c = &L->cp[i];
    if (parts & 1) { if (c->nv != s->nv[i]) VPD("component %d: nv %d instead of %d", i, c->nv, s->nv[i]) if (c->cc != s->cc[i]) VPD("component %d: cc %d instead of %d", i, c->cc, s->cc[i]) if (c->open != s->open[i]) VPD("component %d: open %d", i, c->open) }
    if (parts & 2) for (int j = 0; j < s->nv[i]; j++) if (memcmp(&c->vt[j], &s->vt[i][j], sizeof(plc_vector))) VPD("component %d vertex %d is (%.17g,%.17g,%.17g), not (%.17g,%.17g,%.17g)", i, j, plc_M_clist(c->vt[j]), plc_M_clist(s->vt[i][j]))
    if (parts & 4) for (int j = -1; j <= s->nv[i]; j += s->nv[i] + 1) if (memcmp(&c->vt[j], &s->vt[i][j], sizeof(plc_vector))) VPD("component %d hidden vertex %d changed", i, j)
    if (parts & 8) for (int j = 0; j < s->cc[i]; j++) if (memcmp(&c->clr[j], &s->clr[i][j], sizeof(plc_color))) VPD("component %d colour %d changed", i, j)
  }
  if (parts & 16) {
    int k = 0;
    for (plc_constraint *c = L->cst; c; c = c->next, k++) { if (k >= s->ncst) VPD("additional constraints") if (!vp_csteq(c, &s->cst[k])) VPD("constraint %d differs", k) }
    if (k != s->ncst) VPD("%d constraints instead of %d", k, s->ncst)
  }
  if (parts & 32) {
    int k = 0;
    for (plc_vert_quant *c = L->quant; c; c = c->next, k++) { if (k >= s->nq) VPD("additional quantifiers") if (c->quant != s->q[k].quant) VPD("quantifier %d differs", k) }
    if (k != s->nq) VPD("%d quantifiers instead of %d", k, s->nq)
  }
  return NULL;
}
/* hidden vertices consistent with the others */
static const char *vp_wrapped(const plCurve *L) {
  for (int i = 0; i < L->nc; i++) {
    plc_strand *s = &L->cp[i];
    if (s->nv < 3 && !s->open) VPD("component %d has %d vertices but is not open", i, s->nv)
    if (s->nv < 2) continue;
    plc_vector a = s->open ? s->vt[1] : s->vt[s->nv - 1], b = s->open ? s->vt[s->nv - 2] : s->vt[0];
    if (memcmp(&a, &s->vt[-1], sizeof a)) VPD("component %d: hidden vertex -1 does not match", i)
    if (memcmp(&b, &s->vt[s->nv], sizeof b)) VPD("component %d: hidden vertex nv does not match", i)
  }
  return NULL;
}
static void vp_desc(const plCurve *L) {
  vh_add("curve nc=%d\n", L->nc);
  for (int i = 0; i < L->nc; i++) {
    plc_strand *s = &L->cp[i];
    vh_add(" component %d %s nv=%d cc=%d:", i, s->open ? "open" : "closed", s->nv, s->cc);
    for (int j = 0; j < s->nv && j < 40; j++) vh_add(" (%.17g,%.17g,%.17g)", plc_M_clist(s->vt[j]));
    vh_add("\n");
  }
  for (plc_constraint *c = L->cst; c; c = c->next) vh_add(" constraint kind %d cmp %d vert %d n %d (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g)\n", c->kind, c->cmp, c->vert, c->num_verts, plc_M_clist(c->vect[0]), plc_M_clist(c->vect[1]));
}
#endif
