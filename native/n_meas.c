/* Executable contracts: measurements of curves. */
#include "vp.h"
static double ang(plc_vector a, plc_vector b) { plc_vector c = vp_cross(a, b); return atan2(vp_len(c), vp_dot(a, b)); }
static int NE(plCurve *L, int i) { return L->cp[i].open ? L->cp[i].nv - 1 : L->cp[i].nv; }
static plc_vector V(plCurve *L, int i, int j) { int n = L->cp[i].nv; return L->cp[i].vt[((j % n) + n) % n]; }
static double edge(plCurve *L, int i, int j) { return vp_dist(V(L, i, j), V(L, i, j + 1)); }
#define NEAR(what, got, want) do { double g_ = (got), w_ = (want); CHECK(fabs(g_ - w_) <= 1e-8 * (1 + fabs(w_)), what ": %.17g, expected %.17g", g_, w_); } while (0)
static void one(void) {
  plCurve *L = vp_rand(4, vh_int(0, 3) ? 8 : 25, VP_QUANT | (vh_int(0, 2) ? VP_NOSHORT : 0) | (vh_int(0, 4) ? 0 : VP_INT));
  vp_snap s; vp_take(L, &s);
  vh_case("plc_arclength"); vp_desc(L); vh_go(L->nc > 1);
  double tot = 0, len[4], lo = 1e20, hi = 0, m2 = 0; int ne = 0, nvt = 0;
  for (int i = 0; i < L->nc; i++) { len[i] = 0; nvt += L->cp[i].nv; for (int j = 0; j < NE(L, i); j++) { double e = edge(L, i, j); len[i] += e; m2 += e * e; ne++; if (e < lo) lo = e; if (e > hi) hi = e; } tot += len[i]; }
  double *cl = malloc(L->nc * sizeof *cl);
  NEAR("total length", plc_arclength(L, cl), tot);
  for (int i = 0; i < L->nc; i++) NEAR("component length", cl[i], len[i]);
  NEAR("length without array", plc_arclength(L, NULL), tot);
  vh_set_fn("plc_edgelength_stats");
  if (ne) {
    double a = -1, b = -1, c = -1, d = -1; int w = vh_int(0, 15);
    plc_edgelength_stats(L, w & 1 ? &a : NULL, w & 2 ? &b : NULL, w & 4 ? &c : NULL, w & 8 ? &d : NULL);
    if (w & 1) NEAR("longest edge", a, hi);
    if (w & 2) NEAR("shortest edge", b, lo);
    if (w & 4) NEAR("mean edge length", c, tot / ne);
    if (w & 8) NEAR("second moment", d, m2 / ne);
  }
  vh_set_fn("plc_s");
  double base = 0;
  for (int i = 0; i < L->nc; i++) {
    double t = base;
    for (int j = 0; j < L->cp[i].nv; j++) { double r = plc_s(L, i, j); CHECK(fabs(r - t) < 1e-8 * (1 + t), "arclength position of vertex %d of component %d: %.17g, expected %.17g", j, i, r, t); if (j < L->cp[i].nv - 1) t += edge(L, i, j); }
    base += len[i];
  }
  vh_set_fn("plc_subarc_length");
  for (int k = 0; k < 6; k++) {
    int i = vh_int(0, L->nc - 1), a = vh_int(0, L->cp[i].nv - 1), b = vh_int(0, L->cp[i].nv - 1); double f = 0;
    for (int j = a < b ? a : b; j < (a < b ? b : a); j++) f += edge(L, i, j);
    if (!L->cp[i].open && len[i] - f < f) f = len[i] - f;
    double r = plc_subarc_length(L, i, a, b);
    CHECK(fabs(r - f) < 1e-8 * (1 + f), "from vertex %d to %d of component %d: %.17g, expected %.17g", a, b, i, r, f);
  }
  vh_set_fn("plc_pointset_diameter");
  double dm = 0; plc_vector com = {{0, 0, 0}}; double gy = 0;
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) {
    com = vp_add(com, vp_mul(1.0 / nvt, L->cp[i].vt[j]));
    for (int i2 = 0; i2 < L->nc; i2++) for (int j2 = 0; j2 < L->cp[i2].nv; j2++) { double d = vp_dist(L->cp[i].vt[j], L->cp[i2].vt[j2]); if (d > dm) dm = d; gy += d * d; }
  }
  NEAR("diameter", plc_pointset_diameter(L), dm);
  vh_set_fn("plc_center_of_mass");
  plc_vector r = plc_center_of_mass(L);
  for (int k = 0; k < 3; k++) NEAR("centre of mass", r.c[k], com.c[k]);
  vh_set_fn("plc_gyradius");
  NEAR("half the mean squared distance", plc_gyradius(L), gy / (2.0 * nvt * nvt));
  for (int k = 0; k < 6; k++) {
    int i = vh_int(0, L->nc - 1), nv = L->cp[i].nv, j = vh_int(0, nv - 1), op = L->cp[i].open;
    if (nv >= 2) {
      vh_set_fn("plc_mean_tangent");
      plc_vector w = op && j == 0 ? vp_sub(V(L, i, 1), V(L, i, 0)) : op && j == nv - 1 ? vp_sub(V(L, i, j), V(L, i, j - 1)) : vp_sub(V(L, i, j + 1), V(L, i, j - 1));
      if (vp_len(w) > 1e-3) {
        bool ok = false; plc_vector t = plc_mean_tangent(L, i, j, &ok);
        CHECK(ok, "tangent at vertex %d of component %d not found", j, i);
        CHECK(vp_dist(t, vp_mul(1 / vp_len(w), w)) < 1e-8, "tangent at vertex %d of component %d", j, i);
      } else if (vp_len(w) == 0) { bool ok = true; plc_mean_tangent(L, i, j, &ok); CHECK(!ok, "no tangent, but success reported"); }
    }
    vh_set_fn("plc_turning_angle");
    int jj = op ? j + (int)vh_int(-1, 1) * (int)vh_int(0, 2) : j + (int)vh_int(-2, 2) * nv;
    double want = 0; bool ok = false;
    if (!op || (jj > 0 && jj < nv - 1)) {
      plc_vector a = vp_sub(V(L, i, jj), V(L, i, jj - 1)), b = vp_sub(V(L, i, jj + 1), V(L, i, jj));
      if (vp_len(a) < 1e-3 || vp_len(b) < 1e-3) goto skip;
      want = ang(a, b);
    }
    double g = plc_turning_angle(L, i, jj, &ok);
    CHECK(fabs(g - want) < 1e-6, "turning angle at vertex %d of component %d: %.17g, expected %.17g", jj, i, g, want);
    CHECK(ok, "turning angle at vertex %d of component %d: reported as failed", jj, i);
    CHECK(fabs(plc_turning_angle(L, i, jj, NULL) - want) < 1e-6, "turning angle without status");
    if (fabs(want - acos(-1)) > 1e-2) {
      vh_set_fn("plc_MR_curvature");
      double e1 = edge(L, i, j - 1), e2 = edge(L, i, j), m = e1 < e2 ? e1 : e2, w = op && (j == 0 || j == nv - 1) ? 0 : -1;
      if (w < 0) { plc_vector a = vp_sub(V(L, i, j), V(L, i, j - 1)), b = vp_sub(V(L, i, j + 1), V(L, i, j)); if (vp_len(a) < 1e-3 || vp_len(b) < 1e-3 || acos(-1) - ang(a, b) < 1e-2) goto skip; w = 2 * tan(ang(a, b) / 2) / m; }
      double q = plc_MR_curvature(L, i, j);
      CHECK(fabs(q - w) < 1e-6 * (1 + w), "curvature at vertex %d of component %d: %.17g, expected %.17g", j, i, q, w);
    }
  skip:;
  }
  vh_set_fn("plc_totalcurvature");
  double tk = 0, tt = 0, ck[4], ct[4]; int deg = 0, degt = 0;
  for (int i = 0; i < L->nc; i++) {
    int nv = L->cp[i].nv, op = L->cp[i].open; ck[i] = ct[i] = 0;
    for (int j = 0; j < NE(L, i); j++) if (edge(L, i, j) < 1e-3) deg = 1;
    for (int j = op ? 1 : 0; j < (op ? nv - 1 : nv); j++) ck[i] += ang(vp_sub(V(L, i, j), V(L, i, j - 1)), vp_sub(V(L, i, j + 1), V(L, i, j)));
    for (int j = 0; j < (op ? nv - 3 : nv); j++) {
      plc_vector e0 = vp_sub(V(L, i, j + 1), V(L, i, j)), e1 = vp_sub(V(L, i, j + 2), V(L, i, j + 1)), e2 = vp_sub(V(L, i, j + 3), V(L, i, j + 2));
      plc_vector n0 = vp_cross(e0, e1), n1 = vp_cross(e1, e2);
      if (vp_len(n0) < 1e-3 || vp_len(n1) < 1e-3) degt = 1; else ct[i] += ang(n0, n1);
    }
    tk += ck[i]; tt += ct[i];
  }
  if (!deg) {
    for (int i = 0; i < L->nc; i++) cl[i] = -7;
    double g = plc_totalcurvature(L, cl);
    CHECK(fabs(g - tk) < 1e-5, "total curvature %.17g, expected %.17g", g, tk);
    for (int i = 0; i < L->nc; i++) CHECK(fabs(cl[i] - ck[i]) < 1e-5, "curvature of component %d: %.17g, expected %.17g", i, cl[i], ck[i]);
    CHECK(fabs(plc_totalcurvature(L, NULL) - tk) < 1e-5, "total curvature without array");
  }
  if (!degt) {
    vh_set_fn("plc_totaltorsion");
    double g = plc_totaltorsion(L, cl);
    CHECK(fabs(g - tt) < 1e-5, "total torsion %.17g, expected %.17g", g, tt);
    for (int i = 0; i < L->nc; i++) CHECK(fabs(cl[i] - ct[i]) < 1e-5, "torsion of component %d: %.17g, expected %.17g", i, cl[i], ct[i]);
    CHECK(fabs(plc_totaltorsion(L, NULL) - tt) < 1e-5, "total torsion without array");
  }
  {
    vh_set_fn("plc_mean_squared_chordlengths");
    int i = vh_int(0, L->nc - 1), nv = L->cp[i].nv, n = vh_int(1, 3), *sk = malloc(n * sizeof(int));
    if (!L->cp[i].open || nv > 1) {
      for (int k = 0; k < n; k++) sk[k] = vh_int(0, nv - 1);
      double *m = plc_mean_squared_chordlengths(L, i, sk, n);
      for (int k = 0; k < n; k++) {
        double w = 0; int cnt = 0;
        for (int j = 0; j < nv; j++) if (!L->cp[i].open || j + sk[k] < nv) { double d = vp_dist(V(L, i, j), V(L, i, j + sk[k])); w += d * d; cnt++; }
        NEAR("mean squared chord", m[k], w / cnt);
      }
      free(m);
    }
    free(sk);
  }
  free(cl);
  const char *d = vp_diff(L, &s, 63);
  CHECK(!d, "curve changed: %s", d);
  vp_drop(&s); vp_free(L);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) one();
  return vh_done();
}
