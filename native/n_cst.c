/* Executable contracts: constraints against a per-vertex model. */
#include "vp.h"
typedef struct { int kind; plc_vector a, b; } con;
static con M[4][12];
static plCurve *L;
static plc_vector pool[4]; static double dpool[3];
static plc_vector closest(con *m, plc_vector p) {
  if (m->kind == fixed) return m->a;
  double n = vp_dot(m->a, m->a);
  if (m->kind == line) return vp_add(m->b, vp_mul(vp_dot(vp_sub(p, m->b), m->a) / n, m->a));
  return vp_add(p, vp_mul((m->b.c[0] - vp_dot(p, m->a)) / n, m->a)); /* the plane of points x with x.a = d */
}
static int veq(plc_vector a, plc_vector b) { return !memcmp(&a, &b, sizeof a); }
static void compare(void) {
  int lc = -1, le = 0, steps = 0;
  for (plc_constraint *c = L->cst; c; c = c->next) {
    CHECK(++steps < 200, "constraint list does not end");
    CHECK(c->kind == fixed || c->kind == line || c->kind == plane, "kind %d in the list", c->kind);
    CHECK(c->cmp >= 0 && c->cmp < L->nc && c->num_verts >= 1 && c->vert >= 0 && c->vert + c->num_verts <= L->cp[c->cmp].nv, "constraint on component %d, vertices %d+%d out of range", c->cmp, c->vert, c->num_verts);
    CHECK(c->kind != fixed || c->num_verts == 1, "fixed constraint on %d vertices", c->num_verts);
    CHECK(c->cmp > lc || (c->cmp == lc && c->vert >= le), "constraints out of order or overlapping at component %d vertex %d", c->cmp, c->vert);
    lc = c->cmp; le = c->vert + c->num_verts;
  }
  const char *f = strdup(vh_fn);
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) {
    plc_constraint *c = (plc_constraint *)8;
    con *m = &M[i][j];
    bool r = plc_is_constrained(L, i, j, &c);
    CHECK(r == (m->kind != unconstrained), "vertex %d of component %d: constrained %d, expected kind %d", j, i, r, m->kind);
    CHECK(plc_is_constrained(L, i, j, NULL) == r, "plc_is_constrained without result pointer");
    if (r) CHECK(c->kind == m->kind && veq(c->vect[0], m->a) && veq(c->vect[1], m->b), "vertex %d of component %d: kind %d (%g,%g,%g)(%g,%g,%g), expected kind %d (%g,%g,%g)(%g,%g,%g)", j, i, c->kind, plc_M_clist(c->vect[0]), plc_M_clist(c->vect[1]), m->kind, plc_M_clist(m->a), plc_M_clist(m->b));
  }
  free((void *)f);
}
static void one(void) {
  long l0 = vh_live;
  L = vp_rand(4, 9, VP_NOCST | VP_QUANT);
  if (vh_int(0, 1)) for (int i = 1; i < L->nc; i++) if (L->cp[i].nv < 6) { free(L->cp[i].vt - 1); L->cp[i].nv = 6; L->cp[i].cc = 0; L->cp[i].vt = (plc_vector *)calloc(8, sizeof(plc_vector)) + 1; for (int j = 0; j < 6; j++) L->cp[i].vt[j] = vp_vec(4); vp_wrap(L); }
  vp_snap s; vp_take(L, &s);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 12; j++) M[i][j].kind = unconstrained;
  for (int k = 0; k < 4; k++) pool[k] = k < 2 ? vp_unit() : vp_vec(2);
  dpool[0] = 0; dpool[1] = 1; dpool[2] = vh_real(-2, 2);
  vh_case("plc_set_constraint"); vp_desc(L);
  int ops = vh_int(1, 12);
  plc_vector z = {{0, 0, 0}};
  for (int o = 0; o < ops; o++) {
    int op = vh_int(0, 9), i = vh_int(0, L->nc - 1), nv = L->cp[i].nv, v = vh_int(0, nv - 1), n = vh_int(1, nv - v);
    plc_vector a = pool[vh_int(0, vh_int(0, 3))], b = pool[vh_int(2, 3)]; double d = dpool[vh_int(0, 2)];
    plc_vector dv = {{d, 0, 0}};
    if (vp_len(a) < 0.2) a = pool[0];
    con m;
    if (op <= 1) {
      vh_set_fn("plc_set_fixed"); vh_add("fix %d %d\n", i, v);
      plc_set_fixed(L, i, v, b); m.kind = fixed; m.a = b; m.b = z; M[i][v] = m;
    } else if (op <= 4) {
      vh_set_fn("plc_constrain_to_line"); vh_add("line %d %d+%d (%g,%g,%g)(%g,%g,%g)\n", i, v, n, plc_M_clist(a), plc_M_clist(b));
      plc_constrain_to_line(L, i, v, n, a, b); m.kind = line; m.a = a; m.b = b; for (int j = v; j < v + n; j++) M[i][j] = m;
    } else if (op <= 6) {
      vh_set_fn("plc_constrain_to_plane"); vh_add("plane %d %d+%d (%g,%g,%g) %g\n", i, v, n, plc_M_clist(a), d);
      plc_constrain_to_plane(L, i, v, n, a, d); m.kind = plane; m.a = a; m.b = dv; for (int j = v; j < v + n; j++) M[i][j] = m;
    } else if (op == 7) {
      vh_set_fn("plc_unconstrain"); vh_add("unconstrain %d %d+%d\n", i, v, n);
      plc_unconstrain(L, i, v, n); for (int j = v; j < v + n; j++) M[i][j].kind = unconstrained;
    } else if (op == 8) {
      int kind = vh_int(fixed, plane), cnt = 0;
      plc_vector q[2]; q[0] = kind == fixed ? b : a; q[1] = kind == fixed ? z : kind == line ? b : dv;
      for (int x = 0; x < L->nc; x++) for (int j = 0; j < L->cp[x].nv; j++) if (M[x][j].kind == kind && veq(M[x][j].a, q[0]) && veq(M[x][j].b, q[1])) M[x][j].kind = unconstrained, cnt++;
      vh_set_fn("plc_remove_constraint"); vh_add("remove kind %d (%g,%g,%g)(%g,%g,%g)\n", kind, plc_M_clist(q[0]), plc_M_clist(q[1]));
      int r = plc_remove_constraint(L, kind, q);
      CHECK(r == cnt, "%d vertices freed, expected %d", r, cnt);
    } else if (vh_int(0, 3) == 0) {
      vh_set_fn("plc_remove_all_constraints"); vh_add("remove all\n");
      plc_remove_all_constraints(L); CHECK(!L->cst, "list not empty");
      for (int x = 0; x < 4; x++) for (int j = 0; j < 12; j++) M[x][j].kind = unconstrained;
    }
    compare();
    const char *t = vp_diff(L, &s, 1 | 2 | 4 | 8 | 32);
    CHECK(!t, "curve changed: %s", t);
  }
  vh_go(L->cst != NULL);
  double e = 0;
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) if (M[i][j].kind != unconstrained) { double x = vp_dist(L->cp[i].vt[j], closest(&M[i][j], L->cp[i].vt[j])); if (x > e) e = x; }
  vh_set_fn("plc_check_cst");
  double r = plc_check_cst(L);
  CHECK(fabs(r - e) < 1e-6, "violation %.17g, expected %.17g", r, e);
  vh_set_fn("plc_fix_cst");
  plc_fix_cst(L);
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) {
    plc_vector w = M[i][j].kind == unconstrained ? s.vt[i][j] : closest(&M[i][j], s.vt[i][j]);
    if (M[i][j].kind == unconstrained || M[i][j].kind == fixed) CHECK(veq(L->cp[i].vt[j], w), "vertex %d of component %d moved or not put in place", j, i);
    else CHECK(vp_dist(L->cp[i].vt[j], w) < 1e-6, "vertex %d of component %d is (%.17g,%.17g,%.17g), closest allowed point (%.17g,%.17g,%.17g)", j, i, plc_M_clist(L->cp[i].vt[j]), plc_M_clist(w));
  }
  compare();
  const char *t = vp_wrapped(L); CHECK(!t, "%s", t);
  r = plc_check_cst(L);
  CHECK(r < 1e-6, "constraints violated by %.17g after being enforced", r);
  plc_remove_all_constraints(L);
  vp_drop(&s); vp_free(L);
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) one();
  return vh_done();
}
