/* Executable contracts: creation, copying and release of diagrams. */
#include "vd.h"
static void chk_caps(pd_code_t *p, pd_idx_t mv) {
  pd_idx_t m = mv == 1 ? 2 : mv;
  CHECK(p->MAXVERTS == m && p->MAXEDGES == 2 * m + 1 && p->MAXCOMPONENTS == m / 2 + 2 && p->MAXFACES == m + 2, "capacities %u %u %u %u for %u crossings", p->MAXVERTS, p->MAXEDGES, p->MAXCOMPONENTS, p->MAXFACES, mv);
}
static void touch(pd_code_t *p) { /* every slot of every array may be written */
  for (pd_idx_t i = 0; i < p->MAXVERTS; i++) p->cross[i].sign = 1, p->cross[i].edge[3] = i;
  for (pd_idx_t i = 0; i < p->MAXEDGES; i++) p->edge[i].head = i, p->edge[i].tailpos = 3;
}
static void t_new(void) {
  pd_idx_t mv = vh_int(0, 1) ? vh_int(1, 40) : vh_int(1, 4);
  vh_case("pd_code_new"); vh_add("capacity %u", mv); vh_go(1);
  long l0 = vh_live;
  pd_code_t *p = pd_code_new(mv);
  CHECK(p, "NULL");
  chk_caps(p, mv);
  CHECK(p->ncross == 0 && p->nedges == 0 && p->ncomps == 0 && p->nfaces == 0 && p->uid == 0, "not empty");
  for (pd_idx_t i = 0; i < p->MAXCOMPONENTS; i++) CHECK(!p->comp[i].edge && !p->comp[i].nedges && !p->comp[i].tag, "component %u not empty", i);
  for (pd_idx_t i = 0; i < p->MAXFACES; i++) CHECK(!p->face[i].edge && !p->face[i].orient && !p->face[i].nedges, "face %u not empty", i);
  touch(p);
  vh_set_fn("pd_code_free");
  if (vh_int(0, 1)) for (pd_idx_t i = 0; i < p->MAXCOMPONENTS; i++) if (vh_int(0, 1)) p->comp[i].edge = calloc(p->comp[i].nedges = vh_int(1, 3), sizeof(pd_idx_t));
  if (vh_int(0, 1)) for (pd_idx_t i = 0; i < p->MAXFACES; i++) if (vh_int(0, 1)) p->face[i].nedges = vh_int(1, 3), p->face[i].edge = calloc(p->face[i].nedges, sizeof(pd_idx_t)), p->face[i].orient = calloc(p->face[i].nedges, 1);
  if (vh_int(0, 5) == 0) { free(p->edge); p->edge = NULL; }
  if (vh_int(0, 5) == 0) { free(p->cross); p->cross = NULL; }
  pd_code_free(&p);
  CHECK(!p, "pointer not cleared");
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
  pd_code_free(&p);
}
static void t_copy(int minx, int maxx) {
  pd_code_t *pd = vd_random(minx, maxx, 4, (int)vh_int(0, 3), NULL);
  for (pd_idx_t i = 0; i < pd->ncross; i++) pd->cross[i].sign = vh_int(0, 2);
  for (int k = 0; k < PD_HASHSIZE - 1; k++) pd->hash[k] = 'a' + vh_int(0, 25);
  pd->uid = vh_next();
  if (vh_int(0, 6) == 0) { pd_idx_t f = vh_int(0, pd->nfaces - 1); free(pd->face[f].edge); free(pd->face[f].orient); pd->face[f].edge = NULL; pd->face[f].orient = NULL; pd->face[f].nedges = 0; }
  if (vh_int(0, 6) == 0) { pd->comp[0].tag = vh_int(60, 120); }
  pd_code_t *sv = vd_copy(pd);
  pd_idx_t mv = vh_int(0, 2 * pd->ncross + 3);
  int which = (int)vh_int(0, 1);
  vh_case(which ? "pd_copy_newsize" : "pd_copy"); if (which) vh_add("capacity %u ", mv); vd_add("pd", pd); vh_go(1);
  long l0 = vh_live;
  pd_code_t *c = which ? pd_copy_newsize(pd, mv) : pd_copy(pd);
  CHECK(c && c != pd, "not a new diagram");
  chk_caps(c, which && mv > pd->ncross ? mv : pd->ncross);
  const char *d = vd_diff(c, sv);
  CHECK(!d, "copy differs: %s", d);
  CHECK(c->uid == sv->uid && !memcmp(c->hash, sv->hash, PD_HASHSIZE), "uid or hash differs");
  d = vd_diff(pd, sv);
  CHECK(!d, "original changed: %s", d);
  for (pd_idx_t i = c->ncomps; i < c->MAXCOMPONENTS; i++) CHECK(!c->comp[i].edge && !c->comp[i].nedges, "spare component %u", i);
  for (pd_idx_t i = c->nfaces; i < c->MAXFACES; i++) CHECK(!c->face[i].edge && !c->face[i].orient && !c->face[i].nedges, "spare face %u", i);
  /* independent storage */
  touch(c);
  for (pd_idx_t i = 0; i < c->ncomps; i++) for (pd_idx_t j = 0; j < c->comp[i].nedges; j++) c->comp[i].edge[j] ^= 1;
  for (pd_idx_t i = 0; i < c->nfaces; i++) for (pd_idx_t j = 0; j < c->face[i].nedges; j++) c->face[i].edge[j] ^= 1, c->face[i].orient[j] ^= 1;
  d = vd_diff(pd, sv);
  CHECK(!d, "writing the copy changed the original: %s", d);
  vh_set_fn("pd_code_free");
  pd_code_free(&c);
  CHECK(!c, "pointer not cleared");
  CHECK(vh_live == l0, "%ld blocks left after copy and free", vh_live - l0);
  d = vd_diff(pd, sv);
  CHECK(!d, "freeing the copy changed the original: %s", d);
  vd_free(pd);
  vd_free(sv);
}
static void t_unknot(void) {
  vh_case("pd_copy"); vh_add("the 0-crossing unknot"); vh_go(1);
  long l0 = vh_live;
  pd_code_t *u = pd_build_unknot(0), *c = pd_copy(u);
  const char *d = vd_diff(u, c);
  CHECK(!d, "copy differs: %s", d);
  CHECK(u->edge != c->edge && u->comp[0].edge != c->comp[0].edge, "shared storage");
  pd_code_free(&u);
  pd_code_free(&c);
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_unknot(); t_copy(1, 6); t_copy(2, 24); for (int k = 0; k < 5; k++) t_new(); }
  return vh_done();
}
