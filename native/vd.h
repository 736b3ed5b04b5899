/* Diagram generator and independent oracles for pd-codes (no library code is used to build
   or judge a diagram, except pd_code_new/pd_code_free for storage). */
#ifndef VD_H
#define VD_H
#include "vh.h"
#include "plCurve.h"
#include "plcTopology.h"

static pd_idx_t *vd_ialloc(int n) { return calloc(n > 0 ? n : 1, sizeof(pd_idx_t)); }

/* print a diagram in full */
static void vd_add(const char *nm, const pd_code_t *pd) {
  vh_add("%s: ncross %u nedges %u ncomps %u nfaces %u MAX %u/%u/%u/%u\n", nm, pd->ncross, pd->nedges, pd->ncomps, pd->nfaces, pd->MAXVERTS, pd->MAXEDGES,
         pd->MAXCOMPONENTS, pd->MAXFACES);
  for (pd_idx_t i = 0; i < pd->ncross; i++)
    vh_add(" cr%u(%u %u %u %u %c)", i, pd->cross[i].edge[0], pd->cross[i].edge[1], pd->cross[i].edge[2], pd->cross[i].edge[3],
           pd->cross[i].sign == 1 ? '+' : pd->cross[i].sign == 0 ? '-' : pd->cross[i].sign == 2 ? 'u' : '?');
  vh_add("\n");
  for (pd_idx_t i = 0; i < pd->nedges; i++) vh_add(" e%u(%d.%d->%d.%d)", i, (int)pd->edge[i].tail, (int)pd->edge[i].tailpos, (int)pd->edge[i].head, (int)pd->edge[i].headpos);
  vh_add("\n");
  for (pd_idx_t i = 0; i < pd->ncomps; i++) {
    vh_add(" comp%u[%d]:", i, pd->comp[i].tag);
    for (pd_idx_t j = 0; j < pd->comp[i].nedges; j++) vh_add(" %u", pd->comp[i].edge[j]);
  }
  vh_add("\n");
  for (pd_idx_t i = 0; i < pd->nfaces; i++) {
    vh_add(" face%u:", i);
    for (pd_idx_t j = 0; j < pd->face[i].nedges; j++) vh_add(" %c%u", pd->face[i].orient[j] == 1 ? '+' : pd->face[i].orient[j] == 0 ? '-' : '?', pd->face[i].edge[j]);
  }
  vh_add("\n");
}

/* ---- a diagram as crossings of a generic planar projection ---- */
typedef struct {
  int ncomp, nv[4];
  double x[4][40], y[4][40], z[4][40];
} vd_poly;
typedef struct {
  int c1, s1, c2, s2;
  double t1, t2;
  int over1; /* strand 1 is over */
  int ccw;   /* d1 x d2 > 0 */
} vd_x;

static double vd_orient(double ax, double ay, double bx, double by, double cx, double cy) { return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax); }

/* all crossings of the projection; -1 when degenerate */
static int vd_crossings(const vd_poly *P, vd_x *X, int maxx) {
  int n = 0;
  for (int c = 0; c < P->ncomp; c++)
    for (int s = 0; s < P->nv[c]; s++)
      for (int d = c; d < P->ncomp; d++)
        for (int u = (d == c ? s + 1 : 0); u < P->nv[d]; u++) {
          int sn = (s + 1) % P->nv[c], un = (u + 1) % P->nv[d];
          if (c == d && (un == s || sn == u)) continue;
          double ax = P->x[c][s], ay = P->y[c][s], bx = P->x[c][sn], by = P->y[c][sn];
          double cx = P->x[d][u], cy = P->y[d][u], dx = P->x[d][un], dy = P->y[d][un];
          double o1 = vd_orient(ax, ay, bx, by, cx, cy), o2 = vd_orient(ax, ay, bx, by, dx, dy);
          double o3 = vd_orient(cx, cy, dx, dy, ax, ay), o4 = vd_orient(cx, cy, dx, dy, bx, by);
          if (fabs(o1) < 50 || fabs(o2) < 50 || fabs(o3) < 50 || fabs(o4) < 50) return -1;
          if ((o1 > 0) == (o2 > 0) || (o3 > 0) == (o4 > 0)) continue;
          if (n >= maxx) return -1;
          vd_x *q = &X[n++];
          q->c1 = c; q->s1 = s; q->c2 = d; q->s2 = u;
          q->t1 = o3 / (o3 - o4);
          q->t2 = o1 / (o1 - o2);
          double z1 = P->z[c][s] + q->t1 * (P->z[c][sn] - P->z[c][s]), z2 = P->z[d][u] + q->t2 * (P->z[d][un] - P->z[d][u]);
          if (fabs(z1 - z2) < 1e-3) return -1;
          q->over1 = z1 > z2;
          q->ccw = (bx - ax) * (dy - cy) - (by - ay) * (dx - cx) > 0;
        }
  return n;
}
typedef struct { double at; int x, strand; } vd_visit;
static int vd_vcmp(const void *a, const void *b) {
  const vd_visit *p = a, *q = b;
  return p->at < q->at ? -1 : p->at > q->at;
}
static int vd_minpos(const pd_idx_t *e) { /* canonical rotation: lowest first, leftmost copy of a repeated lowest */
  int m = 0;
  for (int k = 1; k < 4; k++) if (e[k] < e[m]) m = k;
  if (e[3] == e[m] && m == 0 && e[2] != e[0]) m = 3;
  return m;
}
static int vd_ccmp(const void *a, const void *b) {
  const pd_crossing_t *p = a, *q = b;
  for (int k = 0; k < 4; k++) if (p->edge[k] != q->edge[k]) return p->edge[k] < q->edge[k] ? -1 : 1;
  return 0;
}
static int vd_fcmp(const void *a, const void *b) {
  const pd_face_t *p = a, *q = b;
  if (p->nedges != q->nedges) return p->nedges > q->nedges ? -1 : 1;
  for (pd_idx_t k = 0; k < p->nedges; k++) if (p->edge[k] != q->edge[k]) return p->edge[k] < q->edge[k] ? -1 : 1;
  return 0;
}
/* Fill edge, comp and face records from crossings whose edges are numbered consecutively along components.
   inpos[c][strand] = position where strand enters.  ncomp edges counts cn[]. */
static void vd_fill_faces(pd_code_t *pd) {
  /* left face of each oriented edge: turn left at the head means the next edge sits at position headpos-1 (ccw order) */
  int ne = pd->nedges;
  char *used = calloc(2 * ne + 1, 1);
  pd->nfaces = 0;
  for (int e = 0; e < ne; e++)
    for (int o = 1; o >= 0; o--) {
      if (used[2 * e + o]) continue;
      pd_idx_t *fe = vd_ialloc(2 * ne);
      pd_or_t *fo = calloc(2 * ne + 1, 1);
      int n = 0, ce = e, co = o;
      do {
        used[2 * ce + co] = 1;
        fe[n] = ce;
        fo[n] = co;
        n++;
        int h = co ? pd->edge[ce].head : pd->edge[ce].tail, hp = co ? pd->edge[ce].headpos : pd->edge[ce].tailpos;
        int np = (hp + 3) % 4, nx = pd->cross[h].edge[np];
        /* leaving along nx from (h,np): positive iff its tail is there */
        int no = (pd->edge[nx].tail == (pd_idx_t)h && pd->edge[nx].tailpos == (pd_pos_t)np);
        ce = nx;
        co = no;
      } while (!(ce == e && co == o));
      int low = 0;
      for (int k = 0; k < n; k++) if (fe[k] <= fe[low]) low = k;
      pd_face_t *f = &pd->face[pd->nfaces++];
      f->nedges = n;
      f->edge = vd_ialloc(n);
      f->orient = calloc(n, sizeof(pd_or_t));
      for (int k = 0; k < n; k++) f->edge[k] = fe[(k + low) % n], f->orient[k] = fo[(k + low) % n];
      free(fe);
      free(fo);
      if (pd->nfaces == pd->MAXFACES && (e < ne - 1 || o)) { /* nonplanar input: never for our diagrams */
        for (int k = 0; k < 2 * ne; k++) if (!used[k]) { fprintf(stderr, "vd: too many faces\n"); _exit(5); }
      }
    }
  free(used);
  qsort(pd->face, pd->nfaces, sizeof(pd_face_t), vd_fcmp);
}
static int vd_xroot(int *u, int a) { while (u[a] != a) a = u[a]; return a; }

/* build the pd-code of a projection; NULL if split, degenerate or outside [minx,maxx] crossings.
   wr: writhe; lk[i][j]: twice the linking number, for components in the order of the result. */
static pd_code_t *vd_build(const vd_poly *P, int minx, int maxx, int slack, int lk2[4][4]) {
  static vd_x X[512];
  int n = vd_crossings(P, X, 500);
  if (n < minx || n > maxx || n < 1) return NULL;
  int u[512];
  for (int i = 0; i < P->ncomp; i++) u[i] = i;
  for (int i = 0; i < n; i++) u[vd_xroot(u, X[i].c1)] = vd_xroot(u, X[i].c2);
  for (int i = 1; i < P->ncomp; i++) if (vd_xroot(u, i) != vd_xroot(u, 0)) return NULL;
  static vd_visit V[4][1024];
  int nv[4] = {0};
  for (int i = 0; i < n; i++) {
    V[X[i].c1][nv[X[i].c1]++] = (vd_visit){X[i].s1 + X[i].t1, i, 0};
    V[X[i].c2][nv[X[i].c2]++] = (vd_visit){X[i].s2 + X[i].t2, i, 1};
  }
  int order[4] = {0, 1, 2, 3};
  for (int c = 0; c < P->ncomp; c++) {
    if (!nv[c]) return NULL;
    qsort(V[c], nv[c], sizeof(vd_visit), vd_vcmp);
    for (int k = 1; k < nv[c]; k++) if (V[c][k].at - V[c][k - 1].at < 1e-7) return NULL;
  }
  for (int i = 0; i < P->ncomp; i++)
    for (int j = i + 1; j < P->ncomp; j++) if (nv[order[j]] > nv[order[i]]) { int t = order[i]; order[i] = order[j]; order[j] = t; }
  pd_code_t *pd = pd_code_new(n + slack);
  pd->ncross = n;
  pd->nedges = 2 * n;
  pd->ncomps = P->ncomp;
  /* edge k of a component runs from visit k to visit k+1 */
  static int in[512][2], out[512][2];
  int base = 0;
  for (int q = 0; q < P->ncomp; q++) {
    int c = order[q];
    pd->comp[q].nedges = nv[c];
    pd->comp[q].edge = vd_ialloc(nv[c]);
    pd->comp[q].tag = 'A' + q;
    for (int k = 0; k < nv[c]; k++) {
      pd->comp[q].edge[k] = base + k;
      out[V[c][k].x][V[c][k].strand] = base + k;
      in[V[c][k].x][V[c][k].strand] = base + (k + nv[c] - 1) % nv[c];
    }
    base += nv[c];
  }
  if (lk2) memset(lk2, 0, 16 * sizeof(int));
  int back[4];
  for (int q = 0; q < P->ncomp; q++) back[order[q]] = q;
  for (int i = 0; i < n; i++) {
    pd_idx_t e[4];
    if (X[i].ccw) e[0] = out[i][0], e[1] = out[i][1], e[2] = in[i][0], e[3] = in[i][1];
    else e[0] = out[i][0], e[1] = in[i][1], e[2] = in[i][0], e[3] = out[i][1];
    int m = vd_minpos(e);
    for (int k = 0; k < 4; k++) pd->cross[i].edge[k] = e[(k + m) % 4];
    /* positive: (over tangent) x (under tangent) points out of the screen */
    int pos = X[i].over1 ? X[i].ccw : !X[i].ccw;
    pd->cross[i].sign = pos ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
    if (lk2) {
      int a = back[X[i].c1], b = back[X[i].c2];
      lk2[a][b] += pos ? 1 : -1;
      if (a != b) lk2[b][a] += pos ? 1 : -1;
    }
  }
  /* remember which in/out sits where before sorting: recover by (crossing content) after sort */
  /* positions: tail of edge out[i][s], head of edge in[i][s] */
  typedef struct { pd_crossing_t c; int i; } rec;
  rec *R = calloc(n, sizeof(rec));
  for (int i = 0; i < n; i++) R[i].c = pd->cross[i], R[i].i = i;
  qsort(R, n, sizeof(rec), vd_ccmp);
  for (int j = 0; j < n; j++) {
    int i = R[j].i;
    pd->cross[j] = R[j].c;
    pd_idx_t e[4];
    if (X[i].ccw) e[0] = out[i][0], e[1] = out[i][1], e[2] = in[i][0], e[3] = in[i][1];
    else e[0] = out[i][0], e[1] = in[i][1], e[2] = in[i][0], e[3] = out[i][1];
    int m = vd_minpos(e);
    int po0 = (0 - m + 4) % 4, pi0 = (2 - m + 4) % 4;
    int po1 = X[i].ccw ? (1 - m + 4) % 4 : (3 - m + 4) % 4, pi1 = (po1 + 2) % 4;
    pd->edge[out[i][0]].tail = j; pd->edge[out[i][0]].tailpos = po0;
    pd->edge[in[i][0]].head = j;  pd->edge[in[i][0]].headpos = pi0;
    pd->edge[out[i][1]].tail = j; pd->edge[out[i][1]].tailpos = po1;
    pd->edge[in[i][1]].head = j;  pd->edge[in[i][1]].headpos = pi1;
  }
  free(R);
  vd_fill_faces(pd);
  return pd;
}
static void vd_random_poly(vd_poly *P, int maxc, int maxv) {
  P->ncomp = (int)vh_int(1, maxc);
  for (int c = 0; c < P->ncomp; c++) {
    P->nv[c] = (int)vh_int(3, maxv);
    for (int k = 0; k < P->nv[c]; k++) P->x[c][k] = vh_int(0, 1000), P->y[c][k] = vh_int(0, 1000), P->z[c][k] = vh_real(0, 1000);
  }
}
static pd_code_t *vd_random(int minx, int maxx, int maxc, int slack, int lk2[4][4]) {
  for (;;) {
    vd_poly P;
    int mv = (int)vh_int(3, 12);
    vd_random_poly(&P, maxc, mv);
    pd_code_t *pd = vd_build(&P, minx, maxx, slack, lk2);
    if (pd) return pd;
  }
}
static void vd_free(pd_code_t *pd) {
  if (!pd) return;
  for (pd_idx_t i = 0; i < (pd->MAXCOMPONENTS < pd->ncomps ? pd->ncomps : pd->MAXCOMPONENTS); i++) free(pd->comp[i].edge);
  for (pd_idx_t i = 0; i < (pd->MAXFACES < pd->nfaces ? pd->nfaces : pd->MAXFACES); i++) free(pd->face[i].edge), free(pd->face[i].orient);
  free(pd->comp); free(pd->face); free(pd->edge); free(pd->cross); free(pd);
}
/* oracle deep copy with its own storage */
static pd_code_t *vd_copy(const pd_code_t *pd) {
  pd_code_t *r = calloc(1, sizeof *r);
  *r = *pd;
  r->edge = calloc(pd->MAXEDGES, sizeof(pd_edge_t));
  r->comp = calloc(pd->MAXCOMPONENTS + pd->ncomps, sizeof(pd_component_t));
  r->cross = calloc(pd->MAXVERTS, sizeof(pd_crossing_t));
  r->face = calloc(pd->MAXFACES + pd->nfaces, sizeof(pd_face_t));
  memcpy(r->edge, pd->edge, pd->nedges * sizeof(pd_edge_t));
  memcpy(r->cross, pd->cross, pd->ncross * sizeof(pd_crossing_t));
  for (pd_idx_t i = 0; i < pd->ncomps; i++) {
    r->comp[i] = pd->comp[i];
    r->comp[i].edge = vd_ialloc(pd->comp[i].nedges);
    if (pd->comp[i].nedges) memcpy(r->comp[i].edge, pd->comp[i].edge, pd->comp[i].nedges * sizeof(pd_idx_t));
  }
  for (pd_idx_t i = 0; i < pd->nfaces; i++) {
    r->face[i] = pd->face[i];
    r->face[i].edge = vd_ialloc(pd->face[i].nedges);
    r->face[i].orient = calloc(pd->face[i].nedges + 1, 1);
    if (pd->face[i].nedges) memcpy(r->face[i].edge, pd->face[i].edge, pd->face[i].nedges * sizeof(pd_idx_t));
    if (pd->face[i].nedges) memcpy(r->face[i].orient, pd->face[i].orient, pd->face[i].nedges * sizeof(pd_or_t));
  }
  return r;
}
/* same data (contents, not capacities); returns NULL or a description of the first difference */
static const char *vd_diff(const pd_code_t *a, const pd_code_t *b) {
  static char s[200];
#define D(...) do { snprintf(s, sizeof s, __VA_ARGS__); return s; } while (0)
  if (a->ncross != b->ncross) D("ncross %u vs %u", a->ncross, b->ncross);
  if (a->nedges != b->nedges) D("nedges %u vs %u", a->nedges, b->nedges);
  if (a->ncomps != b->ncomps) D("ncomps %u vs %u", a->ncomps, b->ncomps);
  if (a->nfaces != b->nfaces) D("nfaces %u vs %u", a->nfaces, b->nfaces);
  for (pd_idx_t i = 0; i < a->ncross; i++) {
    for (int k = 0; k < 4; k++) if (a->cross[i].edge[k] != b->cross[i].edge[k]) D("cross %u edge %d", i, k);
    if (a->cross[i].sign != b->cross[i].sign) D("cross %u sign", i);
  }
  for (pd_idx_t i = 0; i < a->nedges; i++)
    if (a->edge[i].head != b->edge[i].head || a->edge[i].tail != b->edge[i].tail || a->edge[i].headpos != b->edge[i].headpos || a->edge[i].tailpos != b->edge[i].tailpos) D("edge %u", i);
  for (pd_idx_t i = 0; i < a->ncomps; i++) {
    if (a->comp[i].nedges != b->comp[i].nedges) D("comp %u nedges", i);
    if (a->comp[i].tag != b->comp[i].tag) D("comp %u tag", i);
    for (pd_idx_t j = 0; j < a->comp[i].nedges; j++) if (a->comp[i].edge[j] != b->comp[i].edge[j]) D("comp %u edge %u", i, j);
  }
  for (pd_idx_t i = 0; i < a->nfaces; i++) {
    if (a->face[i].nedges != b->face[i].nedges) D("face %u nedges", i);
    for (pd_idx_t j = 0; j < a->face[i].nedges; j++)
      if (a->face[i].edge[j] != b->face[i].edge[j] || a->face[i].orient[j] != b->face[i].orient[j]) D("face %u edge %u", i, j);
  }
#undef D
  return NULL;
}
/* independent statement of what a well-formed diagram is (the documented data-structure invariants);
   returns NULL or what is wrong.  full: also every oriented edge on exactly one face and Euler's formula. */
static const char *vd_bad(const pd_code_t *pd, int full) {
  static char s[200];
#define D(...) do { snprintf(s, sizeof s, __VA_ARGS__); return s; } while (0)
  pd_idx_t n = pd->ncross, ne = pd->nedges;
  if (pd->ncomps > pd->MAXCOMPONENTS) D("too many components");
  if (pd->nfaces > pd->MAXFACES) D("too many faces");
  if (n == 0) {
    if (full && ne != 1) D("0-crossing diagram without exactly one edge");
    for (pd_idx_t e = 0; e < ne; e++)
      if (pd->edge[e].head != PD_UNSET_IDX || pd->edge[e].tail != PD_UNSET_IDX || pd->edge[e].headpos != PD_UNSET_POS || pd->edge[e].tailpos != PD_UNSET_POS) D("0-crossing edge set");
    if (pd->ncomps != 1 || pd->comp[0].nedges != 1 || pd->comp[0].edge[0] != 0) D("0-crossing component");
    if (pd->nfaces != 2) D("0-crossing faces");
    for (int f = 0; f < 2; f++) if (pd->face[f].nedges != 1 || pd->face[f].edge[0] != 0) D("0-crossing face %d", f);
    return NULL;
  }
  if (ne != 2 * n) D("nedges != 2 ncross");
  int *seen = calloc(ne + 1, sizeof(int));
  for (pd_idx_t i = 0; i < n; i++) {
    if (pd->cross[i].sign > 2) { free(seen); D("cross %u sign %d", i, pd->cross[i].sign); }
    for (int k = 0; k < 4; k++) {
      if (pd->cross[i].edge[k] >= ne) { free(seen); D("cross %u refers to edge %u", i, pd->cross[i].edge[k]); }
      seen[pd->cross[i].edge[k]]++;
    }
  }
  for (pd_idx_t e = 0; e < ne; e++) if (seen[e] != 2) { int k = seen[e]; free(seen); D("edge %u seen %d times", e, k); }
  free(seen);
  for (pd_idx_t i = 1; i < n; i++) if (vd_ccmp(&pd->cross[i - 1], &pd->cross[i]) > 0) D("crossings %u,%u out of order", i - 1, i);
  for (pd_idx_t e = 0; e < ne; e++) {
    const pd_edge_t *E = &pd->edge[e];
    if (E->head >= n || E->tail >= n || E->headpos > 3 || E->tailpos > 3) D("edge %u refers outside", e);
    if (pd->cross[E->head].edge[E->headpos] != e || pd->cross[E->tail].edge[E->tailpos] != e) D("edge %u not where it says", e);
  }
  for (pd_idx_t e = 0; e < ne; e++) {
    const pd_edge_t *E = &pd->edge[e];
    pd_idx_t np = (E->headpos + 2) % 4, pp = (E->tailpos + 2) % 4;
    const pd_edge_t *N = &pd->edge[pd->cross[E->head].edge[np]], *Q = &pd->edge[pd->cross[E->tail].edge[pp]];
    if (N->tail != E->head || N->tailpos != np) D("edge %u not followed head to tail", e);
    if (Q->head != E->tail || Q->headpos != pp) D("edge %u not preceded head to tail", e);
  }
  pd_idx_t cnt = 0;
  for (pd_idx_t c = 0; c < pd->ncomps; c++)
    for (pd_idx_t k = 0; k < pd->comp[c].nedges; k++, cnt++) {
      if (pd->comp[c].edge[k] != cnt) D("comp %u not consecutive", c);
      if (cnt >= ne) D("comp %u beyond edges", c);
      pd_idx_t nx = pd->comp[c].edge[(k + 1) % pd->comp[c].nedges];
      if (nx >= ne) D("comp %u beyond edges", c);
      if (pd->edge[cnt].head != pd->edge[nx].tail || (pd->edge[cnt].headpos + 2) % 4 != pd->edge[nx].tailpos) D("comp %u edges do not join", c);
    }
  if (cnt != ne) D("components miss edges");
  for (pd_idx_t c = 0; c < pd->ncomps; c++) {
    if (pd->comp[c].tag < 'A') D("comp %u tag < A", c);
    for (pd_idx_t d = 0; d < c; d++) if (pd->comp[c].tag == pd->comp[d].tag) D("comps %u,%u share a tag", d, c);
  }
  for (pd_idx_t f = 0; f < pd->nfaces; f++) {
    const pd_face_t *F = &pd->face[f];
    for (pd_idx_t k = 0; k < F->nedges; k++) {
      pd_idx_t a = F->edge[k], m = (k + 1) % F->nedges, b = F->edge[m];
      if (a >= ne || b >= ne) D("face %u refers outside", f);
      if (F->orient[k] > 1 || F->orient[m] > 1) D("face %u orientation", f);
      pd_idx_t h = F->orient[k] ? pd->edge[a].head : pd->edge[a].tail, hp = F->orient[k] ? pd->edge[a].headpos : pd->edge[a].tailpos;
      pd_idx_t t = F->orient[m] ? pd->edge[b].tail : pd->edge[b].head, tp = F->orient[m] ? pd->edge[b].tailpos : pd->edge[b].headpos;
      if (h != t || (tp + 1) % 4 != hp) D("face %u does not turn left at %u", f, k);
      if (F->edge[k] < F->edge[0]) D("face %u not in canonical order", f);
    }
  }
  for (pd_idx_t f = 1; f < pd->nfaces; f++) if (vd_fcmp(&pd->face[f - 1], &pd->face[f]) > 0) D("faces %u,%u out of order", f - 1, f);
  if (full) {
    char *u = calloc(2 * ne + 1, 1);
    pd_idx_t tot = 0;
    for (pd_idx_t f = 0; f < pd->nfaces; f++)
      for (pd_idx_t k = 0; k < pd->face[f].nedges; k++) {
        pd_idx_t q = 2 * pd->face[f].edge[k] + pd->face[f].orient[k];
        if (u[q]) { free(u); D("oriented edge on two faces"); }
        u[q] = 1;
        tot++;
      }
    free(u);
    if (tot != 2 * ne) D("faces miss oriented edges");
    if (n + 2 != pd->nfaces) D("Euler: V %u E %u F %u", n, ne, pd->nfaces);
  }
#undef D
  return NULL;
}
#endif
