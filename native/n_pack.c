/* Executable contracts: packed form of diagrams. */
#include "vi.h"
#include "pd_pack.h"
unsigned int *pd_unpackbitstring(unsigned int *bitform, unsigned int nbits);
unsigned int *pd_idx_bitencode(pd_idx_t i, unsigned int ncrossings);
pd_idx_t pd_idx_bitdecode(unsigned int *bitcode, unsigned int ncrossings);
static void t_bits(void) {
  unsigned n = (unsigned)(vh_int(0, 3) ? vh_int(0, 100) : vh_int(0, 400));
  if (vh_int(0, 4) == 0) n = 32 * (unsigned)vh_int(0, 5);
  unsigned *b = calloc(n ? n : 1, sizeof *b), *sv = calloc(n ? n : 1, sizeof *b);
  vh_case("pd_packbitstring");
  vh_add("%u bits: ", n);
  for (unsigned i = 0; i < n; i++) b[i] = sv[i] = (unsigned)vh_int(0, 1), vh_add("%u", b[i]);
  vh_go(n > 0);
  if (n == 0) { free(b); free(sv); return; }
  unsigned len = 777;
  long live = vh_live;
  unsigned *p = pd_packbitstring(b, n, &len);
  CHECK(len == (n + 31) / 32, "length %u", len);
  for (unsigned i = 0; i < 32 * len; i++) CHECK(((p[i / 32] >> (i % 32)) & 1) == (i < n ? sv[i] : 0), "bit %u", i);
  CHECK(!memcmp(b, sv, n * sizeof *b), "the input changed");
  vh_set_fn("pd_unpackbitstring");
  unsigned *q = pd_unpackbitstring(p, n);
  CHECK(!memcmp(q, sv, n * sizeof *b), "not what was packed");
  free(p); free(q);
  CHECK(vh_live == live, "memory kept");
  free(b); free(sv);
}
static void t_idx(void) {
  unsigned n = (unsigned)(vh_int(0, 2) ? vh_int(1, 40) : vh_int(1, 300));
  if (vh_int(0, 3) == 0) n = 1u << vh_int(0, 20);
  pd_idx_t i = (pd_idx_t)vh_int(0, 2 * (long)n - 1);
  if (vh_int(0, 3) == 0) i = 2 * n - 1;
  vh_case("pd_idx_bitencode"); vh_add("index %u of %u crossings", i, n); vh_go(1);
  unsigned bits = pd_indexbits(n);
  CHECK((1ull << bits) >= 2ull * n && (1ull << bits) < 4ull * n, "%u bits", bits);
  CHECK(pd_packbits(n, SIGNED_CROSSINGS) == n * (5 + 4 * bits) && pd_packbits(n, UNSIGNED_CROSSINGS) == n * (4 + 4 * bits), "pd_packbits");
  unsigned *c = pd_idx_bitencode(i, n);
  for (unsigned k = 0; k < bits; k++) CHECK(c[k] == ((i >> k) & 1), "bit %u", k);
  vh_set_fn("pd_idx_bitdecode");
  pd_idx_t j = pd_idx_bitdecode(c, n);
  CHECK(j == i, "got %u", j);
  free(c);
}
static void t_one(int minx, int maxx) {
  pd_code_t *pd = vd_random(minx, maxx, 4, (int)vh_int(0, 2), NULL);
  int mode = (int)vh_int(0, 2);
  for (pd_idx_t i = 0; i < pd->ncross; i++) pd->cross[i].sign = mode == 0 ? PD_UNSET_ORIENTATION : mode == 1 ? (pd_or_t)vh_int(0, 1) : pd->cross[i].sign;
  pd_code_t *sv = vd_copy(pd);
  vh_case("pd_pack"); vd_add("pd", pd); vh_go(1);
  long live = vh_live;
  unsigned len = 0;
  unsigned *p = pd_pack(pd, &len);
  const char *d = vd_diff(pd, sv);
  CHECK(!d, "packing changed the diagram: %s", d);
  CHECK(len == 1 + (pd_packbits(pd->ncross, mode ? SIGNED_CROSSINGS : UNSIGNED_CROSSINGS) + 31) / 32, "length %u", len);
  CHECK((int)p[0] == (mode ? -(int)pd->ncross : (int)pd->ncross), "header %d", (int)p[0]);
  vh_set_fn("pd_unpack");
  pd_code_t *q = pd_unpack(p);
  CHECK(q != NULL, "no diagram");
  d = vd_bad(q, 1);
  CHECK(!d, "unpacked diagram: %s", d);
  CHECK(q->ncomps == pd->ncomps, "components %u, %u", pd->ncomps, q->ncomps);
  CHECK(vd_niso(pd, q, 0, 1, 1) > 0, "the unpacked diagram is not the packed one");
  /* packing again gives a form of the same length which unpacks to the same thing exactly */
  unsigned len2 = 0;
  unsigned *p2 = pd_pack(q, &len2);
  CHECK(len2 == len && p2[0] == p[0], "packed again: %u words", len2);
  pd_code_t *q2 = pd_unpack(p2);
  d = vd_diff(q, q2);
  CHECK(!d, "unpacked again: %s", d);
  pd_code_free(&q2); pd_code_free(&q); free(p); free(p2);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  vh_set_fn("pd_size");
  unsigned sz = sizeof(pd_code_t) + pd->MAXVERTS * sizeof(pd_crossing_t) + pd->MAXEDGES * sizeof(pd_edge_t) + pd->MAXCOMPONENTS * sizeof(pd_component_t) + pd->MAXFACES * sizeof(pd_face_t);
  for (pd_idx_t i = 0; i < pd->ncomps; i++) sz += pd->comp[i].nedges * sizeof(pd_idx_t);
  for (pd_idx_t i = 0; i < pd->nfaces; i++) sz += pd->face[i].nedges * (sizeof(pd_idx_t) + sizeof(pd_or_t));
  CHECK(pd_size(pd) == sz, "%u bytes, want %u", pd_size(pd), sz);
  vd_free(sv); vd_free(pd);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) {
    t_one(1, 8);
    t_one(3, 30);
    if (vh_int(0, 3) == 0) t_one(1, 2);
    for (int k = 0; k < 10; k++) t_bits(), t_idx();
  }
  return vh_done();
}
