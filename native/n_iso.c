/* Executable contracts: isomorphisms of diagrams. */
#include "vi.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_dihedral.h"
#include "pd_cyclic.h"
#include "pd_isomorphisms.h"
static int compof(const pd_code_t *p, pd_idx_t e) {
  for (pd_idx_t c = 0; c < p->ncomps; c++) for (pd_idx_t j = 0; j < p->comp[c].nedges; j++) if (p->comp[c].edge[j] == e) return (int)c;
  return -1;
}
/* dart maps a -> b: returns the number, of all or of those that keep tags, directions and signs */
static int count(const pd_code_t *a, const pd_code_t *b, int mirror, int isotopy) {
  if (a->ncross != b->ncross || a->nedges != b->nedges || a->ncomps != b->ncomps || a->nfaces != b->nfaces) return 0;
  int k = 0, *em = calloc(a->nedges, sizeof(int));
  for (pd_idx_t c = 0; c < b->ncross; c++) for (int p = 0; p < 4; p++)
    if (vd_iso_from(a, b, c, p, mirror, isotopy ? 1 : 0, isotopy ? 1 : 0, em)) {
      int ok = 1;
      if (isotopy) for (pd_idx_t e = 0; e < a->nedges; e++) if (a->comp[compof(a, e)].tag != b->comp[compof(b, em[e])].tag) ok = 0;
      k += ok;
    }
  free(em);
  return k;
}
/* with one or two crossings, or a component of two edges, the edges around the crossings do not determine directions */
static int rigid(const pd_code_t *a) {
  for (pd_idx_t c = 0; c < a->ncomps; c++) if (a->comp[c].nedges < 2) return 0;
  return a->ncross > 1;
}
static void iso_is(const pd_code_t *a, const pd_code_t *b, const pd_iso_t *f) {
  if (!rigid(a)) return;
  const pd_idx_t *E = f->edgemap->perm->map, *C = f->crossmap->perm->map, *F = f->facemap->perm->map;
  for (pd_idx_t e = 0; e < a->nedges; e++) {
    pd_or_t o = f->edgemap->orient[e];
    CHECK(E[e] < b->nedges && (o == PD_POS_ORIENTATION || o == PD_NEG_ORIENTATION), "edge %u", e);
    const pd_edge_t *x = &a->edge[e], *y = &b->edge[E[e]];
    CHECK(C[x->head] == (o == PD_POS_ORIENTATION ? y->head : y->tail) && C[x->tail] == (o == PD_POS_ORIENTATION ? y->tail : y->head), "the ends of edge %u do not follow it", e);
    CHECK((int)f->compperm->map[compof(a, e)] == compof(b, E[e]), "edge %u leaves the image of its component", e);
  }
  for (pd_idx_t c = 0; c < a->ncross; c++) {
    int hit = 0;
    for (int k = 0; k < 4; k++) {
      int all = 1;
      for (int p = 0; p < 4; p++) if (b->cross[C[c]].edge[(f->crossmap->orient == PD_POS_ORIENTATION ? k + p : k + 4 - p) % 4] != E[a->cross[c].edge[p]]) all = 0;
      hit |= all;
    }
    CHECK(hit, "the edges at crossing %u are not mapped in order", c);
  }
  for (pd_idx_t c = 0; c < a->nfaces; c++) {
    const pd_face_t *x = &a->face[c], *y = &b->face[F[c]];
    CHECK(x->nedges == y->nedges, "face %u changes size", c);
    int hit = 0;
    for (pd_idx_t k = 0; k < x->nedges; k++) {
      int all = 1;
      for (pd_idx_t p = 0; p < x->nedges; p++) {
        pd_idx_t q = f->facemap->orient == PD_POS_ORIENTATION ? (k + p) % x->nedges : (k + x->nedges - p) % x->nedges;
        if (y->edge[q] != E[x->edge[p]]) all = 0;
      }
      hit |= all;
    }
    CHECK(hit, "the edges of face %u are not mapped in order", c);
  }
  for (pd_idx_t i = 0; i < a->nfaces; i++) for (pd_idx_t j = 0; j < i; j++) CHECK(F[i] != F[j], "faces %u and %u", i, j);
  for (pd_idx_t i = 0; i < a->ncross; i++) for (pd_idx_t j = 0; j < i; j++) CHECK(C[i] != C[j], "crossings %u and %u", i, j);
  for (pd_idx_t i = 0; i < a->nedges; i++) for (pd_idx_t j = 0; j < i; j++) CHECK(E[i] != E[j], "edges %u and %u", i, j);
}
static int iso_eq(const pd_code_t *a, const pd_iso_t *f, const pd_iso_t *g) {
  for (pd_idx_t e = 0; e < a->nedges; e++) if (f->edgemap->perm->map[e] != g->edgemap->perm->map[e] || f->edgemap->orient[e] != g->edgemap->orient[e]) return 0;
  return f->crossmap->orient == g->crossmap->orient;
}
static double work(const pd_code_t *p) {
  double w = 1;
  for (pd_idx_t c = 0; c < p->ncomps; c++) {
    w *= 2.0 * p->comp[c].nedges;
    pd_idx_t same = 0;
    for (pd_idx_t d = 0; d <= c; d++) same += p->comp[d].nedges == p->comp[c].nedges;
    w *= same;
  }
  return w * p->nedges;
}
static pd_code_t *variant(const pd_code_t *pd, int *what) {
  pd_code_t *x = vd_copy(pd);
  *what = 0;
  if (vh_int(0, 2) == 0) { /* mirror: reverse the cyclic order */
    *what |= 1;
    for (pd_idx_t c = 0; c < x->ncross; c++) { pd_idx_t t = x->cross[c].edge[1]; x->cross[c].edge[1] = x->cross[c].edge[3]; x->cross[c].edge[3] = t; }
    for (pd_idx_t e = 0; e < x->nedges; e++) x->edge[e].headpos = (4 - x->edge[e].headpos) % 4, x->edge[e].tailpos = (4 - x->edge[e].tailpos) % 4;
    if (vh_int(0, 1)) for (pd_idx_t c = 0; c < x->ncross; c++) if (x->cross[c].sign < 2) x->cross[c].sign ^= 1;
  }
  if (vh_int(0, 2) == 0) for (pd_idx_t c = 0; c < x->ncomps; c++) if (vh_int(0, 1)) {
    *what |= 2;
    for (pd_idx_t j = 0; j < x->comp[c].nedges; j++) { pd_edge_t *e = &x->edge[x->comp[c].edge[j]], s = *e; e->head = s.tail; e->headpos = s.tailpos; e->tail = s.head; e->tailpos = s.headpos; }
  }
  if (vh_int(0, 3) == 0) { *what |= 4; pd_idx_t c = (pd_idx_t)vh_int(0, x->ncross - 1); x->cross[c].sign = (pd_or_t)vh_int(0, 2); }
  pd_code_t *b = vd_relabel(x, 0);
  vd_free(x);
  pd_regenerate(b);
  /* the tags of a, along the crossings, when they can be followed; sometimes shuffled */
  if (vh_int(0, 1)) for (pd_idx_t c = 1; c < b->ncomps; c++) { pd_idx_t d = (pd_idx_t)vh_int(0, c); pd_tag_t t = b->comp[c].tag; b->comp[c].tag = b->comp[d].tag; b->comp[d].tag = t; }
  return b;
}
static void t_pair(int minx, int maxx) {
  pd_code_t *r = vd_random(minx, maxx, 3, 0, NULL), *a = vd_relabel(r, 0), *b;
  int what = 8, mode = (int)vh_int(0, 2);
  for (pd_idx_t c = 0; c < r->ncross; c++) { if (mode == 1) r->cross[c].sign = 2; if (mode == 2) r->cross[c].sign = (pd_or_t)vh_int(0, 1); }
  vd_free(a);
  a = vd_relabel(r, 0);
  vh_case("pd_regenerate"); vh_go(0);
  pd_regenerate(a);
  if (work(a) > 20000) { vd_free(a); vd_free(r); return; }
  if (vh_int(0, 5)) b = variant(a, &what);
  else { do { pd_code_t *q = vd_random(minx, maxx, 3, 0, NULL); b = vd_relabel(q, 0); vd_free(q); pd_regenerate(b); if (b->ncross == a->ncross) break; vd_free(b); } while (1); }
  pd_code_t *sa = vd_copy(a), *sb = vd_copy(b);
  int n0 = count(a, b, 0, 0), n1 = count(a, b, 1, 0), i0 = count(a, b, 0, 1), i1 = count(a, b, 1, 1);
  vh_case("pd_isomorphic"); vd_add("A", a); vd_add("B", b); vh_add("variant %d", what); vh_go(1);
  if (what < 8) CHECK(!strcmp(a->hash, b->hash), "hashes differ: %s %s", a->hash, b->hash);
  long live = vh_live;
  int r0 = pd_isomorphic(a, b);
  CHECK(r0 == (n0 + n1 > 0), "said %d, but there are %d + %d isomorphisms", r0, n0, n1);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  vh_set_fn("pd_map_isomorphic");
  r0 = pd_map_isomorphic(a, b);
  CHECK(r0 == (n0 > 0), "said %d, but there are %d isomorphisms that keep the orientation", r0, n0);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  vh_set_fn("pd_diagram_isotopic");
  r0 = pd_diagram_isotopic(a, b);
  CHECK(r0 == (i0 + i1 > 0), "said %d, but there are %d + %d isotopies", r0, i0, i1);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  unsigned int n;
  for (int kind = 0; kind < 3; kind++) {
    vh_set_fn(kind == 0 ? "pd_build_isos" : kind == 1 ? "pd_build_map_isomorphisms" : "pd_build_diagram_isotopies");
    pd_iso_t **I = kind == 0 ? pd_build_isos(a, b, &n) : kind == 1 ? pd_build_map_isomorphisms(a, b, &n) : pd_build_diagram_isotopies(a, b, &n);
    unsigned want = (unsigned)(kind == 0 ? n0 + n1 : kind == 1 ? n0 : i0 + i1);
    CHECK((n == 0) == (I == NULL), "empty list");
    if (rigid(a)) CHECK(n == want, "%u isomorphisms, there are %u", n, want);
    for (unsigned k = 0; k < n; k++) {
      iso_is(a, b, I[k]);
      CHECK(pd_iso_ok(I[k]) && pd_iso_consistent(a, b, I[k]), "its own test rejects it");
      for (unsigned m = 0; m < k; m++) CHECK(!iso_eq(a, I[k], I[m]), "listed twice");
      if (kind == 2) {
        CHECK(pd_is_diagram_isotopy(I[k], a, b), "its own test rejects it");
        for (pd_idx_t e = 0; e < a->nedges; e++) CHECK(I[k]->edgemap->orient[e] == PD_POS_ORIENTATION, "edge %u reversed", e);
        for (pd_idx_t c = 0; c < a->ncross; c++) CHECK(a->cross[c].sign == b->cross[I[k]->crossmap->perm->map[c]].sign, "sign of crossing %u", c);
        for (pd_idx_t c = 0; c < a->ncomps; c++) CHECK(a->comp[c].tag == b->comp[I[k]->compperm->map[c]].tag, "tag of component %u", c);
      }
      if (kind == 1) CHECK(I[k]->crossmap->orient == PD_POS_ORIENTATION, "reverses the orientation");
    }
    if (n) pd_free_isos(&n, &I);
    CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  }
  const char *d = vd_diff(a, sa);
  CHECK(!d, "A changed: %s", d);
  d = vd_diff(b, sb);
  CHECK(!d, "B changed: %s", d);
  /* automorphisms form a group */
  vh_case("automorphisms"); vd_add("A", a);
  pd_iso_t **I = pd_build_isos(a, a, &n);
  vh_go(n > 1);
  CHECK(n > 0, "not even the identity");
  unsigned ids = 0;
  for (unsigned k = 0; k < n; k++) ids += pd_iso_is_e(I[k]);
  CHECK(!rigid(a) || ids == 1, "%u identities", ids);
  for (int rep = 0; rep < 3 && n > 1; rep++) {
    unsigned k = (unsigned)vh_int(0, n - 1), m = (unsigned)vh_int(0, n - 1);
    live = vh_live;
    vh_set_fn("pd_compose_isos");
    pd_iso_t *f = pd_compose_isos(I[k], I[m]);
    iso_is(a, a, f);
    CHECK(pd_iso_ok(f), "the product fails the validity test");
    for (pd_idx_t e = 0; e < a->nedges; e++) {
      pd_idx_t mid = I[m]->edgemap->perm->map[e];
      CHECK(f->edgemap->perm->map[e] == I[k]->edgemap->perm->map[mid], "edge %u", e);
      CHECK((f->edgemap->orient[e] == PD_POS_ORIENTATION) == (I[m]->edgemap->orient[e] == I[k]->edgemap->orient[mid]), "direction of edge %u", e);
    }
    CHECK((f->crossmap->orient == PD_POS_ORIENTATION) == (I[k]->crossmap->orient == I[m]->crossmap->orient), "orientation");
    int in = 0;
    for (unsigned q = 0; q < n; q++) in |= iso_eq(a, f, I[q]);
    CHECK(in, "the product is not in the list");
    vh_set_fn("pd_stareq_iso");
    pd_iso_t *g = pd_copy_iso(I[k]);
    CHECK(iso_eq(a, g, I[k]) && pd_iso_cmp(&g, &I[k]) == 0, "copy differs");
    pd_stareq_iso(g, I[m]);
    CHECK(pd_iso_ok(g), "the product fails the validity test");
    CHECK(iso_eq(a, f, g) && pd_iso_cmp(&f, &g) == 0, "differs from the product");
    vh_set_fn("pd_iso_period");
    unsigned per = pd_iso_period(I[k]), p = 1;
    pd_free_iso(&g);
    g = pd_copy_iso(I[k]);
    while (!pd_iso_is_e(g) && p < 1000) { pd_iso_t *t = pd_compose_isos(g, I[k]); pd_free_iso(&g); g = t; p++; }
    CHECK(per == p, "period %u, want %u", per, p);
    pd_free_iso(&g);
    pd_free_iso(&f);
    CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  }
  pd_free_isos(&n, &I);
  vd_free(a); vd_free(b); vd_free(r); vd_free(sa); vd_free(sb);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_pair(1, 6); t_pair(3, 9); t_pair(3, 14); }
  return vh_done();
}
