/* P21: the nearest point of a list, the nearest vertex of a curve.  Oracle: the least of all distances. */
#include "vp.h"
static plc_vector *pts(int n, int kind) {
  plc_vector *b = calloc(n, sizeof *b);
  plc_vector dir = vp_vec(3), cur = vp_vec(3);
  double sc = kind == 5 ? 1e-3 : kind == 6 ? 1e6 : 1;
  for (int i = 0; i < n; i++) {
    switch (kind) {
    case 0: b[i] = vp_vec(5); break;
    case 1: b[i] = vp_ivec(4); break;                                            /* many repetitions and equal coordinates */
    case 2: cur = vp_add(cur, vp_vec(0.3)); b[i] = cur; break;                   /* a walk */
    case 3: b[i] = vp_add(vp_mul(i * 0.01, dir), vp_vec(0.05)); break;           /* nearly a line */
    case 4: b[i] = vp_vec(5); b[i].c[vh_int(0, 2)] = 0; break;
    default: b[i] = vp_mul(sc, vp_vec(1)); break;
    }
    if (kind == 4) b[i].c[2] *= 40;
  }
  if (kind == 7) for (int i = 0; i < n; i++) b[i].c[0] = 1, b[i].c[1] = 2;
  return b;
}
static plc_vector query(plc_vector *b, int n) {
  switch (vh_int(0, 4)) {
  case 0: return b[vh_int(0, n - 1)];
  case 1: return vp_add(b[vh_int(0, n - 1)], vp_vec(0.01));
  case 2: return vp_vec(100);
  case 3: { plc_vector a = b[vh_int(0, n - 1)], c = b[vh_int(0, n - 1)]; return vp_mul(0.5, vp_add(a, c)); }
  default: return vp_add(b[vh_int(0, n - 1)], vp_vec(1));
  }
}
static double least(plc_vector q, plc_vector *b, int n) {
  double m = vp_dist(q, b[0]);
  for (int i = 1; i < n; i++) { double d = vp_dist(q, b[i]); if (d < m) m = d; }
  return m;
}
static void t_neighbor(void) {
  int big = vh_int(0, 3) == 0;
  int n = big ? (vh_int(0, 3) ? vh_int(5000, 5600) : vh_int(4998, 5002)) : vh_int(1, 60), kind = vh_int(0, 7);
  plc_vector *b = pts(n, kind), *save = malloc(n * sizeof *b);
  memcpy(save, b, n * sizeof *b);
  int n2 = vh_int(0, 1) ? vh_int(1, 60) : vh_int(5000, 5300);
  plc_vector *b2 = NULL;
  long live = vh_live;
  struct plc_nearest_neighbor_pc_data *pc = NULL;
  int mode = vh_int(0, 2); /* 0: nothing saved; 1: saved; 2: saved, then another list */
  for (int k = 0; k < 6; k++) {
    plc_vector q = query(b, n);
    vh_case("plc_nearest_neighbor");
    vh_add("%d points of kind %d, first (%.17g,%.17g,%.17g), query (%.17g,%.17g,%.17g), %s, query number %d\n", n, kind, plc_M_clist(b[0]), plc_M_clist(q), mode ? "data saved" : "no data saved", k);
    if (n <= 60) for (int i = 0; i < n; i++) vh_add(" (%.17g,%.17g,%.17g)", plc_M_clist(b[i]));
    vh_go(n > 1);
    int err = 77;
    int r = plc_nearest_neighbor(q, n, b, mode ? &pc : NULL, vh_int(0, 1) ? &err : NULL);
    CHECK(r >= 0 && r < n, "answer %d for %d points", r, n);
    double d = vp_dist(q, b[r]), m = least(q, b, n);
    CHECK(d <= m * (1 + 1e-12) + 1e-300, "point %d at distance %.17g, but some point is at %.17g", r, d, m);
    CHECK(!memcmp(b, save, n * sizeof *b), "the list of points has changed");
    CHECK(err == 77 || err == 0, "error %d with data for this very list", err);
    if (!mode) CHECK(vh_live == live, "%ld blocks kept", vh_live - live);
    else CHECK(pc != NULL, "no data saved");
  }
  if (mode == 2) {
    b2 = pts(n2, vh_int(0, 7));
    plc_vector q = query(b2, n2);
    int err = 0;
    vh_case("plc_nearest_neighbor");
    vh_add("data saved for another list of %d points, now %d points, query (%.17g,%.17g,%.17g)", n, n2, plc_M_clist(q));
    vh_go(1);
    int r = plc_nearest_neighbor(q, n2, b2, &pc, &err);
    CHECK(r >= 0 && r < n2, "answer %d for %d points", r, n2);
    CHECK(err == PLC_E_STALE_PCDATA, "stale data not reported (%d)", err);
    CHECK(vp_dist(q, b2[r]) <= least(q, b2, n2) * (1 + 1e-12) + 1e-300, "not the nearest after stale data");
    q = query(b2, n2); err = 0;
    r = plc_nearest_neighbor(q, n2, b2, &pc, &err);
    CHECK(err == 0 && r >= 0 && r < n2 && vp_dist(q, b2[r]) <= least(q, b2, n2) * (1 + 1e-12) + 1e-300, "wrong on the second query after stale data (%d)", err);
    free(b2);
  }
  vh_case("plc_nearest_neighbor_pc_data_free"); vh_go(0);
  plc_nearest_neighbor_pc_data_free(&pc);
  CHECK(!pc && vh_live == live, "%ld blocks kept after release", vh_live - live);
  plc_nearest_neighbor_pc_data_free(&pc);
  free(b); free(save);
}
static double leastv(plc_vector q, plCurve *L) {
  double m = INFINITY;
  for (int c = 0; c < L->nc; c++) { double d = least(q, L->cp[c].vt, L->cp[c].nv); if (d < m) m = d; }
  return m;
}
static void one(plCurve *L, plc_vector q, struct plc_nearest_vertex_pc_data **pc, int stale) {
  int cp = -5, vt = -5, err = 77;
  vh_case("plc_nearest_vertex");
  vh_add("query (%.17g,%.17g,%.17g) %s%s\n", plc_M_clist(q), pc ? "data saved" : "no data saved", stale ? " for something else" : "");
  vp_desc(L); vh_go(1);
  vp_snap s; vp_take(L, &s);
  plc_vector r = plc_nearest_vertex(q, L, &cp, &vt, pc, &err);
  CHECK(cp >= 0 && cp < L->nc && vt >= 0 && vt < L->cp[cp].nv, "vertex %d of component %d", vt, cp);
  CHECK(!memcmp(&r, &L->cp[cp].vt[vt], sizeof r), "position is not that of the vertex");
  double m = leastv(q, L);
  CHECK(vp_dist(q, r) <= m * (1 + 1e-12) + 1e-300, "vertex %d,%d at %.17g, but some vertex is at %.17g", cp, vt, vp_dist(q, r), m);
  if (stale) CHECK(err == PLC_E_STALE_PCDATA, "stale data not reported (%d)", err);
  else CHECK(err == 77 || err == 0, "error %d", err);
  const char *e = vp_diff(L, &s, 63); CHECK(!e, "the curve changed: %s", e);
  vp_drop(&s);
}
static plc_vector qof(plCurve *L) { int c = vh_int(0, L->nc - 1); return query(L->cp[c].vt, L->cp[c].nv); }
static plCurve *crv(void) {
  if (vh_int(0, 7)) return vp_rand(4, 20, 0);
  plCurve *L = vp_rand(3, 5200, VP_NOCST | VP_NOCLR); /* some components are over the limit for plain search */
  if (vh_int(0, 2) == 0) {
    plc_strand *s = &L->cp[L->nc - 1]; free(s->vt - 1); s->nv = vh_int(5000, 5200); s->vt = (plc_vector *)calloc(s->nv + 2, sizeof(plc_vector)) + 1;
    for (int i = 0; i < s->nv; i++) s->vt[i] = vp_vec(6);
    vp_wrap(L);
  }
  return L;
}
static void t_vertex(void) {
  plCurve *L = crv();
  long live = vh_live;
  one(L, qof(L), NULL, 0);
  CHECK(vh_live == live, "%ld blocks kept", vh_live - live);
  struct plc_nearest_vertex_pc_data *pc = NULL;
  for (int k = 0; k < 3; k++) one(L, qof(L), &pc, 0);
  if (vh_int(0, 1)) {
    plCurve *M = crv();
    long d = vh_live;
    one(M, qof(M), &pc, 1); one(M, qof(M), &pc, 0);
    plc_nearest_vertex_pc_data_free(&pc);
    CHECK(!pc, "pointer not cleared");
    (void)d;
    vp_free(M);
  } else if (vh_int(0, 1)) { /* the same curve, one component in another place */
    int c = vh_int(0, L->nc - 1);
    plc_vector *v = (plc_vector *)calloc(L->cp[c].nv + 2, sizeof(plc_vector));
    memcpy(v, L->cp[c].vt - 1, (L->cp[c].nv + 2) * sizeof *v);
    for (int i = 0; i < L->cp[c].nv; i++) v[i + 1] = vp_add(v[i + 1], vp_vec(3));
    free(L->cp[c].vt - 1); L->cp[c].vt = v + 1; vp_wrap(L);
    one(L, qof(L), &pc, 1);
    plc_nearest_vertex_pc_data_free(&pc);
  } else plc_nearest_vertex_pc_data_free(&pc);
  CHECK(!pc && vh_live == live, "%ld blocks kept after release", vh_live - live);
  plc_nearest_vertex_pc_data_free(&pc);
  vp_free(L);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_neighbor(); t_vertex(); t_vertex(); }
  return vh_done();
}
