/* Executable contracts: rebuilding the derived parts of a diagram. */
#include "vi.h"
static void strip(pd_code_t *b) { /* forget the edges */
  for (pd_idx_t e = 0; e < b->MAXEDGES; e++) b->edge[e] = (pd_edge_t){PD_UNSET_IDX, PD_UNSET_POS, PD_UNSET_IDX, PD_UNSET_POS};
  b->nedges = 0;
}
static int fsz(const void *a, const void *b) { return (int)*(const pd_idx_t *)b - (int)*(const pd_idx_t *)a; }
static void same_shape(const pd_code_t *a, const pd_code_t *b) {
  CHECK(a->ncomps == b->ncomps && a->nfaces == b->nfaces && a->nedges == b->nedges, "counts: %u components %u faces %u edges", b->ncomps, b->nfaces, b->nedges);
  for (pd_idx_t i = 0; i < b->ncomps; i++) {
    CHECK(b->comp[i].tag == 'A' + (pd_tag_t)i, "tag of component %u", i);
    if (i) CHECK(b->comp[i - 1].nedges >= b->comp[i].nedges, "components not by length");
  }
  pd_idx_t *x = vd_ialloc(a->nfaces), *y = vd_ialloc(a->nfaces);
  for (pd_idx_t i = 0; i < a->nfaces; i++) x[i] = a->face[i].nedges, y[i] = b->face[i].nedges;
  qsort(x, a->nfaces, sizeof *x, fsz);
  for (pd_idx_t i = 0; i < a->nfaces; i++) CHECK(x[i] == y[i], "face %u has %u edges, want %u", i, y[i], x[i]);
  free(x); free(y);
}
static void t_one(int minx, int maxx) {
  pd_code_t *pd = vd_random(minx, maxx, 4, (int)vh_int(0, 2), NULL);
  int mode = (int)vh_int(0, 3); /* 0 all unset 1 random signs 2 geometric 3 some unset */
  for (pd_idx_t i = 0; i < pd->ncross; i++)
    if (mode != 2) pd->cross[i].sign = mode == 0 ? 2 : mode == 1 ? (pd_or_t)vh_int(0, 1) : (pd_or_t)vh_int(0, 2);
  int unset = 1;
  for (pd_idx_t i = 0; i < pd->ncross; i++) if (pd->cross[i].sign != 2) unset = 0;
  pd_code_t *b = vd_relabel(pd, 0);
  vh_case("pd_regenerate_crossings"); vd_add("pd", b); vh_go(1);
  pd_regenerate_crossings(b);
  for (pd_idx_t i = 0; i < b->ncross; i++) {
    const pd_idx_t *e = b->cross[i].edge;
    CHECK(vd_minpos(e) == 0, "crossing %u does not start at its lowest edge", i);
    if (i) CHECK(vd_ccmp(&b->cross[i - 1], &b->cross[i]) <= 0, "crossings %u and %u out of order", i - 1, i);
  }
  for (pd_idx_t e = 0; e < b->nedges; e++)
    CHECK(b->cross[b->edge[e].head].edge[b->edge[e].headpos] == e && b->cross[b->edge[e].tail].edge[b->edge[e].tailpos] == e, "edge %u not where it says", e);
  CHECK(vd_niso(pd, b, 0, 1, 1) > 0, "not the same diagram");
  vd_free(b);
  /* everything, edges present */
  b = vd_relabel(pd, 0);
  vh_case("pd_regenerate"); vd_add("pd", b); vh_go(1);
  long live = vh_live;
  pd_regenerate(b);
  const char *d = vd_bad(b, 1);
  CHECK(!d, "%s", d);
  same_shape(pd, b);
  CHECK(vd_niso(pd, b, 0, unset ? 2 : 1, 1) > 0, "not the same diagram");
  CHECK(vh_live - live == (long)(b->ncomps + 2 * b->nfaces), "memory kept: %ld blocks", vh_live - live - (long)(b->ncomps + 2 * b->nfaces));
  /* again: nothing changes (when the signs keep the edges) */
  pd_code_t *sv = vd_copy(b);
  char hash[PD_HASHSIZE];
  memcpy(hash, b->hash, PD_HASHSIZE);
  CHECK(strlen(hash) < PD_HASHSIZE, "hash not terminated");
  live = vh_live;
  vh_set_fn("pd_regenerate (again)");
  pd_regenerate(b);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  d = vd_bad(b, 1);
  CHECK(!d, "%s", d);
  if (!unset) { d = vd_diff(b, sv); CHECK(!d, "changed: %s", d); }
  CHECK(vd_niso(sv, b, 0, unset ? 2 : 1, 1) > 0, "not the same diagram");
  CHECK(!memcmp(hash, b->hash, PD_HASHSIZE), "hash changed");
  /* another numbering: the same hash */
  pd_code_t *c = vd_relabel(pd, 0);
  vh_set_fn("pd_regenerate_hash");
  pd_regenerate(c);
  CHECK(!strcmp(b->hash, c->hash), "the hash depends on the numbering: %s %s", b->hash, c->hash);
  vd_free(c); vd_free(sv); vd_free(b);
  /* crossings only */
  b = vd_relabel(pd, 0);
  for (pd_idx_t i = 0; i < b->ncross; i++) b->cross[i].sign = 2;
  strip(b);
  vh_case("pd_regenerate_edges"); vd_add("pd", pd); vh_go(1);
  live = vh_live;
  pd_regenerate_edges(b);
  CHECK(b->nedges == 2 * b->ncross, "edges");
  CHECK(vh_live == live, "memory kept");
  for (pd_idx_t e = 0; e < b->nedges; e++) {
    const pd_edge_t *E = &b->edge[e];
    CHECK(E->head < b->ncross && E->tail < b->ncross && E->headpos < 4 && E->tailpos < 4 && b->cross[E->head].edge[E->headpos] == e && b->cross[E->tail].edge[E->tailpos] == e && (E->head != E->tail || E->headpos != E->tailpos), "edge %u", e);
    pd_idx_t np = (E->headpos + 2) % 4;
    const pd_edge_t *N = &b->edge[b->cross[E->head].edge[np]];
    CHECK(N->tail == E->head && N->tailpos == np, "edge %u is not followed head to tail", e);
  }
  CHECK(vd_niso(pd, b, 0, 2, 0) > 0, "not the same diagram");
  vd_free(b);
  /* components and faces from edges */
  b = vd_relabel(pd, 0);
  vh_case("pd_regenerate_comps"); vd_add("pd", pd); vh_go(1);
  pd_regenerate_crossings(b);
  live = vh_live;
  pd_regenerate_comps(b);
  CHECK(vh_live - live == (long)b->ncomps, "memory kept");
  vh_set_fn("pd_regenerate_faces");
  pd_regenerate_faces(b);
  CHECK(vh_live - live == (long)(b->ncomps + 2 * b->nfaces), "memory kept");
  d = vd_bad(b, 1);
  CHECK(!d, "%s", d);
  same_shape(pd, b);
  CHECK(vd_niso(pd, b, 0, 1, 1) > 0, "not the same diagram");
  vd_free(b); vd_free(pd);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) {
    t_one(1, 8);
    t_one(3, 30);
    if (vh_int(0, 3) == 0) t_one(1, 2);
  }
  return vh_done();
}
