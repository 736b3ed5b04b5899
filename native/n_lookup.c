/* Executable contracts: lookup of edges on components and faces, comparators. */
#include "vd.h"
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void t_diag(int minx, int maxx) {
  pd_code_t *pd = vd_random(minx, maxx, 4, (int)vh_int(0, 2), NULL);
  pd_code_t *sv = vd_copy(pd);
  vh_case("pd_component_and_pos"); vd_add("pd", pd); vh_go(1);
  for (pd_idx_t c = 0; c < pd->ncomps; c++)
    for (pd_idx_t j = 0; j < pd->comp[c].nedges; j++) {
      pd_idx_t a = 777, b = 777, e = pd->comp[c].edge[j];
      pd_component_and_pos(pd, e, &a, &b);
      CHECK(a == c && b == j, "edge %u reported at component %u position %u, is at %u,%u", e, a, b, c, j);
      a = b = 777;
      pd_component_and_pos(pd, e, &a, NULL);
      pd_component_and_pos(pd, e, NULL, &b);
      CHECK(a == c && b == j, "edge %u (one output at a time) at %u,%u, is at %u,%u", e, a, b, c, j);
    }
  vh_case("pd_face_and_pos"); vd_add("pd", pd); vh_go(1);
  for (pd_idx_t e = 0; e < pd->nedges; e++) {
    pd_idx_t r[4] = {777, 777, 777, 777}, w[4] = {0, 0, 0, 0};
    for (pd_idx_t f = 0; f < pd->nfaces; f++)
      for (pd_idx_t k = 0; k < pd->face[f].nedges; k++)
        if (pd->face[f].edge[k] == e) { int o = pd->face[f].orient[k] == 1 ? 0 : 2; w[o] = f; w[o + 1] = k; }
    vh_set_fn("pd_face_and_pos");
    pd_face_and_pos(pd, e, &r[0], &r[1], &r[2], &r[3]);
    CHECK(!memcmp(r, w, sizeof r), "edge %u: + at %u.%u - at %u.%u, want %u.%u %u.%u", e, r[0], r[1], r[2], r[3], w[0], w[1], w[2], w[3]);
    vh_set_fn("pd_edge_on_face");
    for (pd_idx_t f = 0; f < pd->nfaces; f++) CHECK(pd_edge_on_face(pd, e, f) == (f == w[0] || f == w[2]), "edge %u face %u", e, f);
  }
  const char *d = vd_diff(pd, sv);
  CHECK(!d, "a lookup changed the diagram: %s", d);
  vd_free(pd);
  vd_free(sv);
}
static pd_idx_t rv(int big) { return big ? (pd_idx_t)vh_int(0, 2147483647) : (pd_idx_t)vh_int(0, 2); }
static void t_cmp(void) {
  int big = (int)vh_int(0, 3) == 0;
  pd_crossing_t A[3];
  for (int q = 0; q < 3; q++) { for (int k = 0; k < 4; k++) A[q].edge[k] = rv(big); A[q].sign = vh_int(0, 2); }
  vh_case("pd_cross_cmp");
  for (int q = 0; q < 2; q++) vh_add("(%u %u %u %u) ", A[q].edge[0], A[q].edge[1], A[q].edge[2], A[q].edge[3]);
  vh_go(1);
  int w = 0;
  for (int k = 0; k < 4 && !w; k++) w = A[0].edge[k] < A[1].edge[k] ? -1 : A[0].edge[k] > A[1].edge[k];
  CHECK(sgn(pd_cross_cmp(&A[0], &A[1])) == w, "got %d, want sign %d", pd_cross_cmp(&A[0], &A[1]), w);
  int n[2];
  pd_idx_t *b[2];
  pd_or_t *o[2];
  n[0] = (int)vh_int(0, 6);
  n[1] = vh_int(0, 2) ? n[0] : (int)vh_int(0, 6);
  for (int q = 0; q < 2; q++) { b[q] = malloc(n[q] * sizeof(pd_idx_t)); o[q] = malloc(n[q]); for (int k = 0; k < n[q]; k++) b[q][k] = rv(big), o[q][k] = vh_int(0, 1); }
  if (n[0] == n[1] && vh_int(0, 3) == 0) memcpy(b[1], b[0], n[0] * sizeof(pd_idx_t));
  w = n[0] > n[1] ? -1 : n[0] < n[1];
  for (int k = 0; n[0] == n[1] && k < n[0] && !w; k++) w = b[0][k] < b[1][k] ? -1 : b[0][k] > b[1][k];
  pd_component_t C[2];
  pd_face_t F[2];
  for (int q = 0; q < 2; q++) { C[q].nedges = F[q].nedges = n[q]; C[q].edge = F[q].edge = b[q]; F[q].orient = o[q]; C[q].tag = 'A' + q; }
  vh_case("pd_component_cmp");
  for (int q = 0; q < 2; q++) { vh_add("("); for (int k = 0; k < n[q]; k++) vh_add("%u ", b[q][k]); vh_add(") "); }
  vh_go(1);
  CHECK(sgn(pd_component_cmp(&C[0], &C[1])) == w, "got %d, want sign %d", pd_component_cmp(&C[0], &C[1]), w);
  vh_set_fn("pd_face_cmp");
  CHECK(sgn(pd_face_cmp(&F[0], &F[1])) == w, "got %d, want sign %d", pd_face_cmp(&F[0], &F[1]), w);
  for (int q = 0; q < 2; q++) free(b[q]), free(o[q]);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_diag(1, 6); t_diag(2, 24); for (int k = 0; k < 40; k++) t_cmp(); }
  return vh_done();
}
