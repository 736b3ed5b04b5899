/* Executable contracts: geometric operations on curves and what they do to constraints. */
#include "vp.h"
static int near(plc_vector a, plc_vector b, double tol) { for (int k = 0; k < 3; k++) if (!(fabs(a.c[k] - b.c[k]) <= tol)) return 0; return 1; }
typedef plc_vector (*mapf)(plc_vector);
static double g_s; static plc_vector g_t, g_ax; static double g_ang;
static plc_vector m_scale(plc_vector v) { return vp_mul(g_s, v); }
static plc_vector m_trans(plc_vector v) { return vp_add(v, g_t); }
static plc_vector m_proj(plc_vector v) { double n = vp_dot(g_ax, g_ax); return vp_add(v, vp_mul(-vp_dot(v, g_ax) / n, g_ax)); }
static plc_vector m_rot(plc_vector v) { return vp_rot(v, vp_mul(1 / vp_len(g_ax), g_ax), g_ang); }
static plc_vector m_rotr(plc_vector v) {
  double a = g_ax.c[0], b = g_ax.c[1], c = g_ax.c[2], s = sqrt(1 - c * c);
  if (s < 1e-12) { if (c < 0) { v.c[1] *= -1; v.c[2] *= -1; } return v; }
  plc_vector r = {{(-v.c[0] * b + v.c[1] * a) / s, (-v.c[0] * a * c - v.c[1] * b * c) / s + v.c[2] * s, v.c[0] * a + v.c[1] * b + v.c[2] * c}};
  return r;
}
/* every vertex mapped, all else kept; constraints checked by the caller */
static void after(plCurve *L, vp_snap *s, mapf f, double tol) {
  for (int i = 0; i < L->nc; i++) if (s->nv[i] < 3) s->open[i] = 1;
  const char *d = vp_diff(L, s, 1 | 8 | 32);
  CHECK(!d, "%s", d);
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < s->nv[i]; j++) {
    plc_vector w = f(s->vt[i][j]);
    CHECK(near(L->cp[i].vt[j], w, tol), "component %d vertex %d is (%.17g,%.17g,%.17g), expected (%.17g,%.17g,%.17g)", i, j, plc_M_clist(L->cp[i].vt[j]), plc_M_clist(w));
  }
  d = vp_wrapped(L);
  CHECK(!d, "%s", d);
}
static void csts(plCurve *L, vp_snap *s, mapf pt, mapf dir, double (*dist)(double, plc_vector), double tol) {
  int k = 0;
  for (plc_constraint *c = L->cst; c; c = c->next, k++) {
    CHECK(k < s->ncst, "additional constraints");
    plc_constraint *o = &s->cst[k];
    CHECK(c->kind == o->kind && c->cmp == o->cmp && c->vert == o->vert && c->num_verts == o->num_verts, "constraint %d moved to other vertices", k);
    if (o->kind == fixed) CHECK(near(c->vect[0], pt(o->vect[0]), tol), "constraint %d: fixed point", k);
    if (o->kind == line) CHECK(near(c->vect[0], dir(o->vect[0]), tol) && near(c->vect[1], pt(o->vect[1]), tol), "constraint %d: line", k);
    if (o->kind == plane) CHECK(near(c->vect[0], dir(o->vect[0]), tol) && fabs(c->vect[1].c[0] - dist(o->vect[1].c[0], o->vect[0])) <= tol, "constraint %d: plane distance %.17g, expected %.17g", k, c->vect[1].c[0], dist(o->vect[1].c[0], o->vect[0]));
  }
  CHECK(k == s->ncst, "constraints lost");
}
static plc_vector m_id(plc_vector v) { return v; }
static double d_id(double d, plc_vector n) { return d; }
static double d_scale(double d, plc_vector n) { return g_s * d; }
static double d_trans(double d, plc_vector n) { return d + vp_dot(n, g_t); }
static void one(void) {
  static const char *fn[] = {"plc_scale", "plc_translate", "plc_project", "plc_rotate", "plc_random_rotate"};
  int op = vh_int(0, 4);
  plCurve *L = vp_rand(4, 8, VP_QUANT);
  vp_snap s; vp_take(L, &s);
  vh_case(fn[op]); vp_desc(L);
  if (op == 0) {
    g_s = vh_int(0, 3) ? vh_real(-3, 3) : (double)vh_int(-1, 2); vh_add("alpha %.17g", g_s); vh_go(1);
    plc_scale(L, g_s); after(L, &s, m_scale, 1e-9); csts(L, &s, m_scale, m_id, d_scale, 1e-9);
  } else if (op == 1) {
    g_t = vh_int(0, 3) ? vp_vec(5) : vp_mul(pow(10, vh_real(-9, 3)), vp_unit()); vh_add("by (%.17g,%.17g,%.17g)", plc_M_clist(g_t)); vh_go(1);
    plc_translate(L, g_t); after(L, &s, m_trans, 1e-9); csts(L, &s, m_trans, m_id, d_trans, 1e-9);
  } else if (op == 2) {
    g_ax = vp_mul(vh_int(0, 1) ? 1 : pow(10, vh_real(-4, 4)), vp_unit()); vh_add("normal (%.17g,%.17g,%.17g)", plc_M_clist(g_ax)); vh_go(1);
    plc_project(L, g_ax); after(L, &s, m_proj, 1e-9); csts(L, &s, m_id, m_id, d_id, 0);
  } else if (op == 3) {
    g_ax = vp_mul(vh_int(0, 1) ? 1 : vh_real(0.1, 5), vp_unit()); g_ang = vh_int(0, 3) ? vh_real(-7, 7) : vh_int(-2, 2) * acos(0);
    if (vh_int(0, 2) == 0) { int k = vh_int(0, 2); for (int q = 0; q < 3; q++) g_ax.c[q] = q == k ? vh_int(0, 1) * 2 - 1 : 0; for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) if (vh_int(0, 2) == 0) { L->cp[i].vt[j] = vp_mul(vh_real(-3, 3), g_ax); } vp_wrap(L); vp_drop(&s); vp_take(L, &s); vp_desc(L); }
    vh_add("axis (%.17g,%.17g,%.17g) angle %.17g", plc_M_clist(g_ax), g_ang); vh_go(1);
    plc_rotate(L, g_ax, g_ang); after(L, &s, m_rot, 1e-7); csts(L, &s, m_rot, m_rot, d_id, 1e-7);
  } else {
    g_ax = vp_unit();
    if (vh_int(0, 2) == 0) { int k = vh_int(0, 2); for (int q = 0; q < 3; q++) g_ax.c[q] = q == k ? vh_int(0, 1) * 2 - 1 : 0; }
    vh_add("axis (%.17g,%.17g,%.17g)", plc_M_clist(g_ax)); vh_go(1);
    plc_random_rotate(L, g_ax);
    /* what is asked for: a rotation that takes the axis to (0,0,1) */
    for (int i = 0; i < L->nc; i++) if (s.nv[i] < 3) s.open[i] = 1;
    const char *d = vp_diff(L, &s, 1 | 8 | 16 | 32);
    CHECK(!d, "%s", d);
    plc_vector *p[400], *q[400]; int n = 0;
    for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv && n < 400; j++) p[n] = &s.vt[i][j], q[n++] = &L->cp[i].vt[j];
    for (int a = 0; a < n; a++) {
      CHECK(fabs(q[a]->c[2] - vp_dot(*p[a], g_ax)) < 1e-7, "height %.17g of vertex %d, expected %.17g", q[a]->c[2], a, vp_dot(*p[a], g_ax));
      for (int b = 0; b < n; b++) CHECK(fabs(vp_dot(*p[a], *p[b]) - vp_dot(*q[a], *q[b])) < 1e-6, "scalar product of vertices %d, %d not kept", a, b);
    }
    for (int a = 0; a + 2 < n; a++) { /* orientation */
      plc_vector u = vp_cross(*p[a], *p[a + 1]), v = vp_cross(*q[a], *q[a + 1]);
      CHECK(fabs(vp_dot(u, *p[a + 2]) - vp_dot(v, *q[a + 2])) < 1e-5, "orientation of vertices %d.. not kept", a);
    }
    d = vp_wrapped(L); CHECK(!d, "%s", d);
  }
  vp_drop(&s); vp_free(L);
}
static void t_pfm(void) {
  plCurve *L = vp_rand(3, 9, VP_QUANT | VP_NOSHORT);
  int cp = vh_int(0, L->nc - 1), nv = L->cp[cp].nv, a = vh_int(-1, nv), b = vh_int(-1, nv);
  double ang = vh_int(0, 3) ? vh_real(-7, 7) : acos(-1);
  plc_vector ax = vp_add(L->cp[cp].vt[b], vp_mul(-1, L->cp[cp].vt[a]));
  if (a == b || vp_dot(ax, ax) < 1e-6) { vp_free(L); return; }
  if (vh_int(0, 3) == 0) { int k = vh_int(0, nv - 1); if (k != a && k != b) { L->cp[cp].vt[k] = vp_add(L->cp[cp].vt[a], vp_mul(vh_unit(), ax)); vp_wrap(L); ax = vp_add(L->cp[cp].vt[b], vp_mul(-1, L->cp[cp].vt[a])); if (vp_dot(ax, ax) < 1e-6) { vp_free(L); return; } } }
  if (b < a) ax = vp_mul(-1, ax);
  ax = vp_mul(1 / vp_len(ax), ax);
  vp_snap s; vp_take(L, &s);
  vh_case("plc_pfm"); vp_desc(L); vh_add("component %d from %d to %d by %.17g", cp, a, b, ang); vh_go(1);
  plc_pfm(L, cp, a, b, ang);
  int lo = a < b ? a : b, hi = a < b ? b : a;
  plc_vector base = s.vt[cp][lo];
  const char *d = vp_diff(L, &s, 1 | 8 | 16 | 32);
  CHECK(!d, "%s", d);
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < s.nv[i]; j++) {
    plc_vector w = s.vt[i][j];
    if (i == cp && j > lo && j < hi) { w = vp_add(base, vp_rot(vp_add(w, vp_mul(-1, base)), ax, ang)); CHECK(near(L->cp[i].vt[j], w, 1e-6), "vertex %d of component %d is (%.17g,%.17g,%.17g), expected (%.17g,%.17g,%.17g)", j, i, plc_M_clist(L->cp[i].vt[j]), plc_M_clist(w)); }
    else CHECK(near(L->cp[i].vt[j], w, 0), "vertex %d of component %d moved", j, i);
  }
  d = vp_wrapped(L); CHECK(!d, "%s", d);
  vp_drop(&s); vp_free(L);
}
static void t_perturb(void) {
  plCurve *L = vp_rand(3, 9, VP_QUANT);
  double r = pow(10, vh_real(-3, 1));
  vp_snap s; vp_take(L, &s);
  for (int i = 0; i < L->nc; i++) if (s.nv[i] < 3) s.open[i] = 1;
  vh_case("plc_perturb"); vp_desc(L); vh_add("radius %.17g", r); vh_go(L->cst != NULL);
  plc_perturb(L, r);
  const char *d = vp_diff(L, &s, 1 | 8 | 16 | 32); CHECK(!d, "%s", d);
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < s.nv[i]; j++) {
    int c = 0;
    for (int k = 0; k < s.ncst; k++) if (s.cst[k].cmp == i && j >= s.cst[k].vert && j < s.cst[k].vert + s.cst[k].num_verts) c = 1;
    plc_vector m = vp_add(L->cp[i].vt[j], vp_mul(-1, s.vt[i][j]));
    if (c) CHECK(near(L->cp[i].vt[j], s.vt[i][j], 0), "constrained vertex %d of component %d moved", j, i);
    else CHECK(sqrt(vp_dot(m, m)) <= r * (1 + 1e-6) + 1e-12, "vertex %d of component %d moved by %.17g", j, i, sqrt(vp_dot(m, m)));
  }
  d = vp_wrapped(L); CHECK(!d, "%s", d);
  vp_drop(&s); vp_free(L);
}
static void t_whitten(void) {
  plCurve *L = vp_rand(5, 7, VP_QUANT);
  int nc = L->nc, p[5], arr[10], eps[5], mirror = vh_int(0, 1) * 2 - 1, n = 0, seen[5] = {0};
  for (int i = 0; i < L->nc; i++) if (L->cp[i].cc != L->cp[i].nv && L->cp[i].cc > 1) { L->cp[i].cc = 1; }
  for (int i = 0; i < nc; i++) p[i] = i, eps[i] = vh_int(0, 1) * 2 - 1;
  for (int i = nc - 1; i > 0; i--) { int j = vh_int(0, i), t = p[i]; p[i] = p[j]; p[j] = t; }
  for (int i = 0; i < nc; i++) if (!seen[i] && p[i] != i) { int j = i; do { arr[n++] = j; seen[j] = 1; j = p[j]; } while (j != i); arr[n++] = i; }
  while (n < 2 * nc) arr[n++] = -1;
  int *hp = malloc(2 * nc * sizeof(int)); memcpy(hp, arr, 2 * nc * sizeof(int));
  vp_snap s; vp_take(L, &s);
  vh_case("plc_whitten"); vp_desc(L); vh_add("mirror %d, eps/perm:", mirror); for (int i = 0; i < nc; i++) vh_add(" %d/%d", eps[i], p[i]); vh_go(nc > 1);
  plc_whitten(L, mirror, eps, hp);
  CHECK(L->nc == nc, "components");
  for (int i = 0; i < nc; i++) {
    int o = p[i], nv = s.nv[o];
    plc_strand *c = &L->cp[i];
    CHECK(c->nv == nv && c->cc == s.cc[o] && c->open == (s.open[o] || nv < 3), "component %d is not the old component %d", i, o);
    for (int j = 0; j < nv; j++) {
      plc_vector w = s.vt[o][eps[i] == -1 ? nv - 1 - j : j];
      if (mirror == -1) w.c[2] *= -1;
      CHECK(near(c->vt[j], w, 0), "component %d (old %d) vertex %d", i, o, j);
    }
    for (int j = 0; j < c->cc; j++) CHECK(!memcmp(&c->clr[j], &s.clr[o][c->cc == nv && eps[i] == -1 ? nv - 1 - j : j], sizeof(plc_color)), "component %d colour %d", i, j);
  }
  int k = 0;
  for (plc_constraint *c = L->cst; c; c = c->next, k++)
    CHECK(!c->next || c->cmp < c->next->cmp || (c->cmp == c->next->cmp && c->vert + c->num_verts <= c->next->vert), "constraint list not in order of component and vertex at %d", k);
  for (int q = 0; q < s.ncst; q++) {
    plc_constraint *o = &s.cst[q], *c; int i = 0;
    while (p[i] != o->cmp) i++;
    int v = eps[i] == -1 ? s.nv[o->cmp] - o->vert - o->num_verts : o->vert;
    for (c = L->cst; c; c = c->next) if (c->cmp == i && c->vert == v) break;
    CHECK(c && c->kind == o->kind && c->num_verts == o->num_verts, "the constraint on component %d vertex %d is not found on component %d vertex %d", o->cmp, o->vert, i, v);
    plc_vector a = o->vect[0], b = o->vect[1];
    if (mirror == -1) { a.c[2] *= -1; if (o->kind == line) b.c[2] *= -1; }
    CHECK(near(c->vect[0], a, 0) && near(c->vect[1], b, 0), "constraint on component %d vertex %d: vectors", i, v);
  }
  CHECK(k == s.ncst, "constraints lost");
  const char *d = vp_wrapped(L); CHECK(!d, "%s", d);
  free(hp); vp_drop(&s); vp_free(L);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { one(); one(); one(); t_pfm(); t_perturb(); t_whitten(); }
  return vh_done();
}
