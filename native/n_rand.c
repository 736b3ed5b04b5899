/* Executable contracts: random polygons and closures. */
#include <gsl/gsl_rng.h>
#include "vp.h"
static gsl_rng *R;
typedef plCurve *(*gen)(gsl_rng *, int);
static double total(plCurve *L, int i) { double s = 0; int e = L->cp[i].open ? L->cp[i].nv - 1 : L->cp[i].nv; for (int j = 0; j < e; j++) s += vp_dist(L->cp[i].vt[j], j + 1 < L->cp[i].nv ? L->cp[i].vt[j + 1] : L->cp[i].vt[0]); return s; }
static int finite3(plc_vector v) { return isfinite(v.c[0]) && isfinite(v.c[1]) && isfinite(v.c[2]); }
static void one(const char *name, gen g, int open, int plane, double edge, int lo, int hi) { /* edge: 0 means total length 2, -1 means edges 2/n */
  int n = vh_int(0, 2) ? vh_int(lo, lo + 12 < hi ? lo + 12 : hi) : vh_int(lo, hi);
  unsigned long seed = (unsigned long)vh_int(1, 1000000000);
  vh_case(name); vh_add("%d edges, generator seed %lu", n, seed); vh_go(1);
  long live = vh_live;
  gsl_rng_set(R, seed);
  plCurve *L = g(R, n);
  CHECK(L && L->nc == 1 && !L->cst && !L->G, "not one component");
  plc_strand *s = &L->cp[0];
  CHECK(s->open == open && s->nv == n + open && s->cc == 0, "%d vertices, open %d, %d colours", s->nv, s->open, s->cc);
  double tol = 1e-9 * (n + 1), len = total(L, 0);
  for (int j = 0; j < s->nv; j++) { CHECK(finite3(s->vt[j]), "vertex %d is not finite", j); }
  if (plane) { int in = 0; for (int k = 0; k < 3; k++) { double m = 0; for (int j = 0; j < s->nv; j++) m = fmax(m, fabs(s->vt[j].c[k])); if (m < 1e-12) in = 1; } CHECK(in, "the polygon does not lie in a coordinate plane"); }
  if (edge == 0) CHECK(fabs(len - 2) < tol, "length %.17g", len);
  else { double e = edge < 0 ? 2.0 / n : edge; for (int j = 0; j < n; j++) { double d = vp_dist(s->vt[j], j + 1 < s->nv ? s->vt[j + 1] : s->vt[0]); CHECK(fabs(d - e) < 1e-7 + tol, "edge %d has length %.17g, expected %.17g", j, d, e); } }
  const char *d = vp_wrapped(L); CHECK(!d, "%s", d);
  if (vh_int(0, 3) == 0) { /* the state of the generator determines the polygon; the next one is different */
    plCurve *N = g(R, n);
    gsl_rng_set(R, seed);
    plCurve *M = g(R, n);
    CHECK(M->cp[0].nv == s->nv, "another number of vertices");
    for (int j = 0; j < s->nv; j++) CHECK(vp_same(&M->cp[0].vt[j], &s->vt[j], sizeof(plc_vector)), "the same seed gives another polygon");
    int same = n > 3; for (int j = 0; j < s->nv; j++) if (!vp_same(&N->cp[0].vt[j], &s->vt[j], sizeof(plc_vector))) same = 0;
    CHECK(!same, "two polygons in a row are equal");
    plc_free(M); plc_free(N);
  }
  plc_free(L);
  CHECK(vh_live == live, "%ld blocks left", vh_live - live);
}
static void sap(void) {
  int n = vh_int(5, vh_int(0, 9) ? 9 : 13);
  uint64_t seed = (uint64_t)vh_int(0, 1000000000);
  vh_case("plc_random_equilateral_closed_self_avoiding_polygon"); vh_add("%d edges, state from %lu", n, (unsigned long)seed); vh_go(1);
  long live = vh_live;
  uint64_t *x = plc_xoshiro_init(seed);
  plCurve *L = plc_random_equilateral_closed_self_avoiding_polygon(x, n);
  CHECK(L && L->nc == 1 && !L->cp[0].open && L->cp[0].nv == n && L->cp[0].cc == 0, "shape");
  for (int i = 0; i < n; i++) {
    double d = vp_dist(L->cp[0].vt[i], L->cp[0].vt[(i + 1) % n]);
    CHECK(fabs(d - 1) < 1e-7, "edge %d has length %.17g", i, d);
    for (int j = 0; j < i; j++) CHECK(vp_dist(L->cp[0].vt[i], L->cp[0].vt[j]) > 1 - 1e-8, "vertices %d and %d at distance %.17g", i, j, vp_dist(L->cp[0].vt[i], L->cp[0].vt[j]));
  }
  const char *d = vp_wrapped(L); CHECK(!d, "%s", d);
  plc_free(L); plc_xoshiro_free(x);
  CHECK(vh_live == live, "%ld blocks left", vh_live - live);
}
static void closure(void) {
  plCurve *L = vp_rand(3, 7, VP_NOCST);
  int cp = vh_int(0, L->nc - 1), kind = vh_int(0, 9);
  if (kind) { L->cp[cp].open = 1; if (L->cp[cp].nv < 2) L->cp[cp].nv = L->cp[cp].nv; }
  int nv = L->cp[cp].nv, op = L->cp[cp].open;
  if (op && nv > 1 && vh_int(0, 7) == 0) L->cp[cp].vt[nv - 1] = L->cp[cp].vt[0]; /* ends meet */
  if (op && nv > 1 && vh_int(0, 7) == 0) { L->cp[cp].vt[0] = vp_ivec(2); L->cp[cp].vt[nv - 1] = L->cp[cp].vt[0]; L->cp[cp].vt[nv - 1].c[0] += vh_int(0, 1) ? 1 : -1; }
  for (int i = 0; i < L->nc; i++) if (L->cp[i].cc > 1 && L->cp[i].cc != L->cp[i].nv) L->cp[i].cc = 1;
  vp_wrap(L);
  double all = 0; for (int i = 0; i < L->nc; i++) all += total(L, i);
  double want = vh_int(0, 3) ? vh_real(0.2, 1.9) : vh_real(0.9, 2.2);
  if (all > 1e-6) { double f = want / all; for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) L->cp[i].vt[j] = vp_mul(f, L->cp[i].vt[j]); }
  vp_wrap(L);
  all = 0; for (int i = 0; i < L->nc; i++) all += total(L, i);
  double gap = vp_dist(L->cp[cp].vt[0], L->cp[cp].vt[nv - 1]), slack = 2 - all - gap;
  int extra = vh_int(-1, 6), N = nv - 1 + extra;
  unsigned long seed = (unsigned long)vh_int(1, 1000000000);
  vp_snap s; vp_take(L, &s);
  vh_case("plc_loop_closure"); vp_desc(L); vh_add("component %d, %d edges in all, generator seed %lu", cp, N, seed); vh_go(slack > 0 && op && extra > 1);
  if (fabs(slack) < 1e-7 || N < 3) { vp_drop(&s); vp_free(L); return; }
  gsl_rng_set(R, seed);
  long live = vh_live;
  plCurve *Q = plc_loop_closure(R, cp, L, N);
  const char *d = vp_diff(L, &s, 63); CHECK(!d, "the open curve changed: %s", d);
  int can = op && slack > 0 && extra >= 2;
  CHECK(!Q == !can, "%s", Q ? "a closure although there is none" : "no closure");
  if (Q) {
    CHECK(Q->nc == L->nc, "%d components", Q->nc);
    double t = 0;
    for (int i = 0; i < L->nc; i++) {
      t += total(Q, i);
      CHECK(Q->cp[i].nv == (i == cp ? N : s.nv[i]) && Q->cp[i].open == (i == cp ? 0 : s.open[i]), "component %d: %d vertices, open %d", i, Q->cp[i].nv, Q->cp[i].open);
      for (int j = 0; j < s.nv[i]; j++) CHECK(vp_same(&Q->cp[i].vt[j], &s.vt[i][j], sizeof(plc_vector)), "vertex %d of component %d changed", j, i);
      CHECK(Q->cp[i].cc == (i == cp && s.cc[i] > 1 ? N : s.cc[i]), "component %d: %d colours", i, Q->cp[i].cc);
      for (int j = 0; j < s.cc[i]; j++) CHECK(vp_same(&Q->cp[i].clr[j], &s.clr[i][j], sizeof(plc_color)), "colour %d of component %d changed", j, i);
      for (int j = 0; j < Q->cp[i].nv; j++) CHECK(finite3(Q->cp[i].vt[j]), "vertex %d of component %d is not finite", j, i);
    }
    CHECK(fabs(t - 2) < 1e-7, "total length %.17g", t);
    d = vp_wrapped(Q); CHECK(!d, "%s", d);
    plc_free(Q);
  }
  CHECK(vh_live == live, "%ld blocks left", vh_live - live);
  vp_drop(&s); vp_free(L);
}
/* averages of squared chords, against the symmetric measure (total length 2) and the uniform measure (equal edges): E|e|^2 and, by exchangeability of the edges, k(n-k)/(n-1) or k times it */
static void averages(void) {
  static const struct { const char *name; gen g; int open, plane, eq; } G[] = {{"plc_random_closed_polygon", plc_random_closed_polygon, 0, 0, 0}, {"plc_random_open_polygon", plc_random_open_polygon, 1, 0, 0}, {"plc_random_closed_plane_polygon", plc_random_closed_plane_polygon, 0, 1, 0}, {"plc_random_open_plane_polygon", plc_random_open_plane_polygon, 1, 1, 0}, {"plc_random_equilateral_closed_polygon", plc_random_equilateral_closed_polygon, 0, 0, 1}, {"plc_random_equilateral_open_polygon", plc_random_equilateral_open_polygon, 1, 0, 1}};
  int w = vh_int(0, 5), n = vh_int(4, 14), N = 20000, a = vh_int(0, n - 1), k = G[w].eq || vh_int(0, 2) ? vh_int(2, n - 1) : 1;
  if (G[w].open && a + k > n) a = n - k;
  unsigned long seed = (unsigned long)vh_int(1, 1000000000);
  vh_case(G[w].name); vh_add("average over %d polygons of %d edges, vertices %d and %d, generator seed %lu", N, n, a, a + k, seed); vh_go(1);
  gsl_rng_set(R, seed);
  double s = 0, q = 0, e2 = G[w].eq ? (G[w].open ? 4.0 / n / n : 1) : G[w].plane ? (G[w].open ? 8.0 / n / (n + 1) : 8.0 / n / (n + 2)) : G[w].open ? 12.0 / n / (2 * n + 1) : 6.0 / n / (n + 1);
  double want = e2 * (G[w].open ? k : (double)k * (n - k) / (n - 1));
  for (int i = 0; i < N; i++) {
    plCurve *L = G[w].g(R, n);
    double d = vp_dist(L->cp[0].vt[a], L->cp[0].vt[G[w].open ? a + k : (a + k) % n]);
    s += d * d; q += d * d * d * d;
    plc_free(L);
  }
  s /= N; q = q / N - s * s;
  double err = 7 * sqrt((q > 0 ? q : 0) / N) + 1e-9;
  CHECK(fabs(s - want) <= err, "average squared distance %.6g, expected %.6g +- %.2g", s, want, err);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  R = gsl_rng_alloc(gsl_rng_mt19937);
  if (!getenv("VH_LOUD") && freopen("/dev/null", "w", stderr)) setvbuf(stderr, NULL, _IONBF, 0); /* the library reports there */
  while (vh_frac() < 1) {
    one("plc_random_closed_polygon", plc_random_closed_polygon, 0, 0, 0, 3, 60);
    one("plc_random_open_polygon", plc_random_open_polygon, 1, 0, 0, 2, 60);
    one("plc_random_closed_plane_polygon", plc_random_closed_plane_polygon, 0, 1, 0, 3, 60);
    one("plc_random_open_plane_polygon", plc_random_open_plane_polygon, 1, 1, 0, 2, 60);
    one("plc_random_equilateral_closed_polygon", plc_random_equilateral_closed_polygon, 0, 0, 1, 3, vh_int(0, 20) ? 60 : vh_int(0, 30) ? 300 : 3000);
    one("plc_random_equilateral_open_polygon", plc_random_equilateral_open_polygon, 1, 0, -1, 2, 60);
    if (vh_int(0, 3) == 0) sap();
    for (int k = 0; k < 4; k++) closure();
    if (vh_int(0, 2000) == 0) averages();
  }
  gsl_rng_free(R);
  return vh_done();
}
