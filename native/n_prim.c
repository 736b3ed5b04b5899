/* Executable contracts: orientation, crossing and edge primitives; ordering; next/previous. */
#include "vd.h"
extern void pd_canonorder_cross(pd_crossing_t *, pd_or_t);
extern void pd_canonorder_face(pd_face_t *, pd_or_t);
static const char *P = "";

static void t_or(void) {
  for (int a = 0; a < 256; a++) {
    vh_case("pd_or_ok"); vh_add("%d", a); vh_go(a < 4);
    bool r = pd_or_ok((pd_or_t)a);
    CHECK(r == (a == 0 || a == 1 ), "returned %d", r);
  }
  for (int a = 0; a < 2; a++)
    for (int b = 0; b < 2; b++) {
      vh_case("pd_compose_or"); vh_add("%d %d", a, b); vh_go(1);
      CHECK(pd_compose_or(a, b) == (a == b ? 1 : 0), "wrong product");
      vh_case("pd_or_cmp"); vh_add("%d %d", a, b); vh_go(1);
      pd_or_t A = a, B = b;
      int r = pd_or_cmp(&A, &B);
      CHECK((r == 0) == (a == b), "equality");
      CHECK((r < 0) == (a == 1 && b == 0), "order");
    }
}
static pd_idx_t ridx(void) {
  switch (vh_int(0, 3)) {
  case 0: return vh_int(0, 3);
  case 1: return vh_int(0, 12);
  case 2: return vh_int(0, 100000);
  default: return vh_int(0, 5);
  }
}
static void t_cross(pd_idx_t *e, int sign) {
  for (int o = 0; o < 2; o++) {
    pd_crossing_t c;
    vh_case("pd_build_cross"); vh_add("%u %u %u %u", e[0], e[1], e[2], e[3]); vh_go(o == 0);
    c = pd_build_cross(e[0], e[1], e[2], e[3]);
    for (int k = 0; k < 4; k++) CHECK(c.edge[k] == e[k], "edge %d", k);
    c.sign = sign;
    vh_case("pd_canonorder_cross"); vh_add("%u %u %u %u or %d", e[0], e[1], e[2], e[3], o); vh_go(1);
    pd_canonorder_cross(&c, o);
    CHECK(c.sign == sign, "sign changed");
    pd_idx_t q[4];
    for (int k = 0; k < 4; k++) q[k] = o == 0 ? e[3 - k] : e[k];
    int ok = 0;
    for (int r = 0; r < 4; r++) {
      int m = 1;
      for (int k = 0; k < 4; k++) m &= c.edge[k] == q[(k + r) % 4];
      ok |= m;
    }
    CHECK(ok, "result %u %u %u %u is not a rotation of the cycle", c.edge[0], c.edge[1], c.edge[2], c.edge[3]);
    for (int k = 1; k < 4; k++) CHECK(c.edge[0] <= c.edge[k], "lowest edge not first");
    int opp = c.edge[0] == c.edge[2] || (c.edge[1] == c.edge[3] && c.edge[1] == c.edge[0]);
    if (!opp) CHECK(c.edge[3] != c.edge[0], "repeated lowest edge not leftmost");
  }
}
static void t_edge(void) {
  pd_code_t *pd = vd_random(1, 12, 3, (int)vh_int(0, 3), NULL);
  pd_code_t *sv = vd_copy(pd);
  pd_idx_t e = vh_int(0, pd->nedges - 1);
  int o = (int)vh_int(0, 1);
  vh_case("pd_reorient_edge"); vh_add("edge %u or %d ", e, o); vd_add("pd", pd); vh_go(1);
  pd_reorient_edge(pd, e, o);
  pd_edge_t w = sv->edge[e];
  if (o == 0) { pd_edge_t x = w; w.head = x.tail; w.headpos = x.tailpos; w.tail = x.head; w.tailpos = x.headpos; }
  pd_edge_t pe = sv->edge[e], q;
  sv->edge[e] = w;
  const char *d = vd_diff(pd, sv);
  CHECK(!d, "after the call: %s", d);
  vh_case("pd_oriented_edge"); vh_add("%u.%u -> %u.%u or %d", pe.tail, pe.tailpos, pe.head, pe.headpos, o); vh_go(1);
  q = pd_oriented_edge(pe, o);
  CHECK(q.head == w.head && q.headpos == w.headpos && q.tail == w.tail && q.tailpos == w.tailpos, "wrong edge");
  vd_free(pd);
  vd_free(sv);
}
static void t_face(void) {
  int n = (int)vh_int(1, 9), o = (int)vh_int(0, 1), dup = (int)vh_int(0, 3) == 0;
  pd_face_t f = {n, vd_ialloc(n), calloc(n, 1)};
  pd_idx_t e[16];
  pd_or_t r[16];
  for (int k = 0; k < n; k++) {
  again:
    e[k] = dup ? vh_int(0, 4) : ridx();
    if (!dup) for (int j = 0; j < k; j++) if (e[j] == e[k]) goto again;
    r[k] = vh_int(0, 1);
    f.edge[k] = e[k]; f.orient[k] = r[k];
  }
  vh_case("pd_canonorder_face"); vh_add("or %d:", o);
  for (int k = 0; k < n; k++) vh_add(" %d/%u", r[k], e[k]);
  vh_go(n > 1);
  pd_canonorder_face(&f, o);
  CHECK(f.nedges == (pd_idx_t)n, "nedges changed");
  int ok = 0;
  for (int s = 0; s < n; s++) {
    int m = 1;
    for (int k = 0; k < n; k++) {
      int p = (k + s) % n;
      if (o == 0) p = n - 1 - p;
      m &= f.edge[k] == e[p] && f.orient[k] == r[p];
    }
    ok |= m;
  }
  CHECK(ok, "not a rotation of the (reversed) cycle");
  for (int k = 0; k < n; k++) CHECK(f.edge[0] <= f.edge[k], "lowest edge not first");
  free(f.edge); free(f.orient);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  t_or();
  pd_idx_t e[4];
  for (int a = 0; a < 256; a++) {
    for (int k = 0; k < 4; k++) e[k] = (a >> (2 * k)) & 3;
    t_cross(e, a % 3);
  }
  while (vh_frac() < 1) {
    for (int k = 0; k < 4; k++) e[k] = ridx();
    t_cross(e, (int)vh_int(0, 2));
    t_edge();
    t_face();
  }
  return vh_done();
}
