/* Isomorphism oracle and relabelling for diagrams. */
#ifndef VI_H
#define VI_H
#include "vd.h"
/* ---- independent isomorphism oracle: maps of darts (crossing, position), grown from one dart by the rotation and the edges.
   mirror: 0 keeps the cyclic order at crossings, 1 reverses it.  dirs: 1 edge directions must be kept, 0 free, 2 per component all kept or
   all reversed.  signs: 1 crossing signs must agree, 2 must be opposite, 0 ignored, 3 over/under relation must agree (signs as they are, corrected for reversed strands).
   Connected diagrams.  fills emap (edge of a -> edge of b) when non-NULL */
static void vd_other(const pd_code_t *p, pd_idx_t c, int k, pd_idx_t *c2, int *k2) {
  const pd_edge_t *e = &p->edge[p->cross[c].edge[k]];
  if (e->head == c && e->headpos == k) *c2 = e->tail, *k2 = e->tailpos;
  else *c2 = e->head, *k2 = e->headpos;
}
static int vd_isin(const pd_code_t *p, pd_idx_t c, int k) { const pd_edge_t *e = &p->edge[p->cross[c].edge[k]]; return e->head == c && e->headpos == k; }
static int vd_iso_from(const pd_code_t *a, const pd_code_t *b, pd_idx_t c0, int k0, int mirror, int dirs, int signs, int *emap) {
  pd_idx_t n = a->ncross;
  int *ci = calloc(n, sizeof(int)), *ro = calloc(n, sizeof(int)), *st = calloc(n, sizeof(int)), *inv = calloc(n, sizeof(int));
  int *em = calloc(a->nedges + 1, sizeof(int)), ns = 0, ok = 1;
  int step = mirror ? 3 : 1;
  for (pd_idx_t i = 0; i < n; i++) ci[i] = inv[i] = -1;
  for (pd_idx_t i = 0; i < a->nedges; i++) em[i] = -1;
  /* crossing 0, position 0 of a goes to (c0,k0); position p goes to k0 + step*p */
  ci[0] = c0; ro[0] = k0; inv[c0] = 0; st[ns++] = 0;
  int seen = 1;
  while (ns && ok) {
    int c = st[--ns];
    for (int p = 0; p < 4 && ok; p++) {
      int bc = ci[c], bp = (ro[c] + step * p) % 4;
      int ea = a->cross[c].edge[p], eb = b->cross[bc].edge[bp];
      if (em[ea] == -1) em[ea] = eb; else if (em[ea] != eb) ok = 0;
      pd_idx_t c2, d2; int p2, q2;
      vd_other(a, c, p, &c2, &p2);
      vd_other(b, bc, bp, &d2, &q2);
      if (dirs == 1 && vd_isin(a, c, p) != vd_isin(b, bc, bp)) ok = 0;
      int want = ((q2 - step * p2) % 4 + 4) % 4;
      if (ci[c2] == -1) {
        if (inv[d2] != -1) { ok = 0; break; }
        ci[c2] = d2; ro[c2] = want; inv[d2] = c2; st[ns++] = c2; seen++;
      } else if (ci[c2] != (int)d2 || ro[c2] != want) ok = 0;
    }
    if (ok && signs) {
      int sa = a->cross[c].sign, sb = b->cross[ci[c]].sign;
      if (signs == 1 && sa != sb) ok = 0;
      if (signs == 2 && sa < 2 && sa == sb) ok = 0;
      if (signs == 2 && (sa < 2) != (sb < 2)) ok = 0;
    }
  }
  if (ok && (pd_idx_t)seen != n) ok = 0;
  if (ok && dirs == 2)
    for (pd_idx_t q = 0; q < a->ncomps && ok; q++) {
      int d = -1;
      for (pd_idx_t j = 0; j < a->comp[q].nedges && ok; j++) {
        pd_idx_t e = a->comp[q].edge[j];
        pd_idx_t h = a->edge[e].head; int hp = a->edge[e].headpos;
        int bi = vd_isin(b, ci[h], (ro[h] + step * hp) % 4);
        if (d == -1) d = bi; else if (d != bi) ok = 0;
      }
    }
  if (ok && emap) for (pd_idx_t e = 0; e < a->nedges; e++) emap[e] = em[e];
  free(ci); free(ro); free(st); free(inv); free(em);
  return ok;
}
/* number of isomorphisms a -> b */
static int vd_niso(const pd_code_t *a, const pd_code_t *b, int mirror, int dirs, int signs) {
  if (a->ncross != b->ncross || a->nedges != b->nedges || a->ncross == 0) return 0;
  int k = 0;
  for (pd_idx_t c = 0; c < b->ncross; c++) for (int p = 0; p < 4; p++) k += vd_iso_from(a, b, c, p, mirror, dirs, signs, NULL);
  return k;
}
/* the same diagram under other names: crossings, edges permuted, positions rotated; components and faces dropped */
static pd_code_t *vd_relabel(const pd_code_t *a, int keepcomps) {
  pd_idx_t n = a->ncross, ne = a->nedges;
  pd_code_t *b = pd_code_new(n + (pd_idx_t)vh_int(0, 2));
  int *cp = calloc(n, sizeof(int)), *ep = calloc(ne, sizeof(int)), *ro = calloc(n, sizeof(int));
  for (pd_idx_t i = 0; i < n; i++) { int j = (int)vh_int(0, i); cp[i] = cp[j]; cp[j] = i; ro[i] = (int)vh_int(0, 3); }
  for (pd_idx_t i = 0; i < ne; i++) { int j = (int)vh_int(0, i); ep[i] = ep[j]; ep[j] = i; }
  b->ncross = n; b->nedges = ne; b->ncomps = 0; b->nfaces = 0;
  for (pd_idx_t i = 0; i < n; i++) {
    for (int k = 0; k < 4; k++) b->cross[cp[i]].edge[(k + ro[i]) % 4] = ep[a->cross[i].edge[k]];
    b->cross[cp[i]].sign = a->cross[i].sign;
  }
  for (pd_idx_t e = 0; e < ne; e++) {
    b->edge[ep[e]].head = cp[a->edge[e].head]; b->edge[ep[e]].headpos = (a->edge[e].headpos + ro[a->edge[e].head]) % 4;
    b->edge[ep[e]].tail = cp[a->edge[e].tail]; b->edge[ep[e]].tailpos = (a->edge[e].tailpos + ro[a->edge[e].tail]) % 4;
  }
  (void)keepcomps;
  free(cp); free(ep); free(ro);
  return b;
}
#endif
