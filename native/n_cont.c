/* Executable contracts: containers of pointers and sorted buffers of indices. */
#include "vh.h"
#include "plcTopology.h"
#include "pd_container.h"
#include "pd_sortedbuf.h"
typedef unsigned int u32;
static int freed[4096];
static void eltfree(void **p) { freed[(long)*p - 1]++; *p = NULL; }
static void t_hist(void) {
  u32 init = vh_int(0, 2) ? vh_int(0, 5) : vh_int(0, 260);
  long n = 0, ops = vh_int(0, 3) ? vh_int(0, 60) : vh_int(60, 1200), next = 1;
  int mode = (int)vh_int(0, 2); /* 0: pointers to small numbers with a callback, 1: heap blocks released by free, 2: some NULL */
  static long model[4096];
  vh_case("pd_new_container"); vh_add("room for %u, %ld operations, elements %d, stream %llu", init, ops, mode, (unsigned long long)vh_s); vh_go(ops > 1);
  long l0 = vh_live;
  pd_container_t *c = pd_new_container(init);
  CHECK(c && pd_container_nelts(c) == 0 && pd_container_ok(c), "a new container is not empty or not valid");
  memset(freed, 0, sizeof freed);
  int bias = (int)vh_int(1, 9);
  for (long k = 0; k < ops; k++) {
    if (n == 0 || vh_int(0, 9) < bias) {
      void *e = mode == 0 ? (void *)next : mode == 1 ? malloc(3) : vh_int(0, 2) ? malloc(3) : NULL;
      next++;
      vh_set_fn("pd_addto_container");
      pd_addto_container(c, e);
      model[n++] = (long)e;
    } else {
      vh_set_fn("pd_pop_container");
      void *e = pd_pop_container(c);
      CHECK((long)e == model[n - 1], "popped %p, last added is %p", e, (void *)model[n - 1]);
      n--;
      if (mode) free(e);
    }
    CHECK(pd_container_nelts(c) == n, "%u elements, expected %ld", pd_container_nelts(c), n);
    CHECK(pd_container_ok(c), "not valid after %ld operations", k + 1);
    if (k % 37 == 0 || k > ops - 3) { vh_set_fn("pd_container_elt"); for (long j = 0; j < n; j++) CHECK((long)pd_container_elt(c, j) == model[j], "element %ld of %ld", j, n); }
    if (n >= 4000) break;
  }
  vh_set_fn("pd_container_elt");
  for (long j = 0; j < n; j++) CHECK((long)pd_container_elt(c, j) == model[j], "element %ld of %ld", j, n);
  vh_set_fn("pd_free_container");
  pd_free_container(&c, mode ? NULL : eltfree);
  CHECK(!c, "pointer not cleared");
  if (!mode) for (long j = 0; j < n; j++) CHECK(freed[model[j] - 1] == 1, "element %ld released %d times", j, freed[model[j] - 1]);
  if (!mode) { long t = 0; for (int j = 0; j < 4096; j++) t += freed[j]; CHECK(t == n, "%ld releases for %ld elements", t, n); }
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
  pd_free_container(&c, NULL);
}
static void t_sorted(void) {
  u32 n = 0, model[80], top = vh_int(0, 1) ? 12 : vh_int(0, 1) ? 60 : 2000000000u, m = 0;
  u32 *buf = NULL;
  long k = vh_int(1, 40);
  vh_case("pd_sortedbuf_insert");
  long l0 = vh_live;
  for (long j = 0; j < k; j++) {
    u32 x = vh_int(0, top);
    vh_add("%u ", x);
    vh_set_fn("pd_sortedbuf_insert");
    buf = pd_sortedbuf_insert(buf, &n, x);
    u32 p = 0;
    while (p < m && model[p] < x) p++;
    if (p == m || model[p] != x) { for (u32 q = m; q > p; q--) model[q] = model[q - 1]; model[p] = x; m++; }
    CHECK(n == m && buf, "%u elements, expected %u", n, m);
    for (u32 q = 0; q < m; q++) CHECK(buf[q] == model[q], "element %u is %u, expected %u", q, buf[q], model[q]);
    CHECK(vh_live == l0 + 1, "%ld blocks held", vh_live - l0);
    vh_set_fn("pd_sortedbuf_contains");
    for (int t = 0; t < 3; t++) {
      u32 y = vh_int(0, 1) ? model[vh_int(0, m - 1)] : vh_int(0, top), where = 77;
      int in = 0; u32 first = PD_UNSET_IDX;
      for (u32 q = m; q-- > 0;) if (model[q] == y) in = 1, first = q;
      CHECK(pd_sortedbuf_contains(buf, n, y) == in, "search for %u", y);
      bool r = pd_buf_contains(buf, n, y, &where);
      CHECK(r == in && where == first, "linear search for %u gives %d at %u", y, r, where);
    }
  }
  vh_go(k > 1);
  free(buf);
  /* any buffer, sorted or not */
  u32 b[20], len = vh_int(0, 19), where = 77;
  vh_case("pd_buf_contains"); for (u32 q = 0; q < len; q++) { b[q] = vh_int(0, 9); vh_add("%u ", b[q]); }
  u32 y = vh_int(0, 9), first = PD_UNSET_IDX;
  vh_add("find %u", y); vh_go(len > 0);
  for (u32 q = len; q-- > 0;) if (b[q] == y) first = q;
  CHECK(pd_buf_contains(b, len, y, &where) == (first != PD_UNSET_IDX) && where == first, "position %u, expected %u", where, first);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_hist(); t_sorted(); t_sorted(); }
  return vh_done();
}
