/* Executable contracts: vertex and edge counts, global numbering. */
#include "vp.h"
static void one(void) {
  plCurve *L = vp_rand(5, vh_int(0, 4) ? 7 : 30, VP_INT);
  vp_snap s; vp_take(L, &s);
  vh_case("plc_num_edges"); vp_desc(L); vh_go(L->nc > 1);
  int V = 0, E = 0;
  for (int i = 0; i < L->nc; i++) V += L->cp[i].nv, E += L->cp[i].nv - (L->cp[i].open ? 1 : 0);
  int r = plc_num_edges(L);
  CHECK(r == E, "%d edges instead of %d", r, E);
  vh_set_fn("plc_num_verts"); r = plc_num_verts(L);
  CHECK(r == V, "%d vertices instead of %d", r, V);
  vh_set_fn("plc_edges");
  int *ce = malloc(sizeof(int) * L->nc);
  for (int i = 0; i < L->nc; i++) ce[i] = -77;
  r = plc_edges(L, ce);
  CHECK(r == E, "%d edges instead of %d", r, E);
  for (int i = 0; i < L->nc; i++) CHECK(ce[i] == L->cp[i].nv - (L->cp[i].open ? 1 : 0), "component %d: %d edges", i, ce[i]);
  CHECK(plc_edges(L, NULL) == E, "with NULL");
  free(ce);
  int n = 0;
  for (int i = 0; i < L->nc; i++) {
    int nv = L->cp[i].nv;
    for (int j = 0; j < nv; j++, n++) {
      vh_set_fn("plc_vertex_num"); r = plc_vertex_num(L, i, j);
      CHECK(r == n, "(%d,%d) has number %d instead of %d", i, j, r, n);
      vh_set_fn("plc_cp_num"); r = plc_cp_num(L, n);
      CHECK(r == i, "number %d: component %d instead of %d", n, r, i);
      vh_set_fn("plc_vt_num"); r = plc_vt_num(L, n);
      CHECK(r == j, "number %d: vertex %d instead of %d", n, r, j);
    }
    vh_set_fn("plc_vertex_num");
    for (int k = 0; k < 12; k++) {
      int j = k < 6 ? (int)vh_int(-3 * nv - 1, 3 * nv + 1) : k < 9 ? (k - 7) + nv * (int)vh_int(-2, 2) : (int)vh_int(-100000, 100000);
      int w;
      if (L->cp[i].open) w = j < 0 ? 0 : j > nv - 1 ? nv - 1 : j;
      else w = ((j % nv) + nv) % nv;
      r = plc_vertex_num(L, i, j);
      CHECK(r == n - nv + w, "(%d,%d) has number %d instead of %d", i, j, r, n - nv + w);
    }
  }
  const char *d = vp_diff(L, &s, 63);
  CHECK(!d, "curve changed: %s", d);
  vp_drop(&s); vp_free(L);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) one();
  return vh_done();
}
