/* Executable contracts: doubling vertices, deleting arcs, splines. */
#include "vp.h"
static plCurve *goodc(int maxnc, int maxnv, int fl) { /* no short edges, no near-reversals */
  for (;;) {
    plCurve *L = vp_rand(maxnc, maxnv, fl);
    int bad = 0;
    for (int i = 0; i < L->nc; i++) { int nv = L->cp[i].nv; if (nv < 2) bad = 1; else for (int j = 0; j < nv; j++) { plc_vector a = vp_sub(L->cp[i].vt[j], L->cp[i].vt[j - 1]), b = vp_sub(L->cp[i].vt[j + 1], L->cp[i].vt[j]); if (vp_len(a) < 0.05 || vp_len(b) < 0.05) bad = 1; if ((!L->cp[i].open || (j > 0 && j < nv - 1)) && (vp_dot(a, b) < -0.9999 * vp_len(a) * vp_len(b) || (nv < 3 && 0))) bad = 1; } }
    if (!bad) return L;
    vp_free(L);
  }
}
static void fixcc(plCurve *L) { for (int i = 0; i < L->nc; i++) if (L->cp[i].cc > 1 && L->cp[i].cc != L->cp[i].nv) L->cp[i].cc = 1; }
static int onseg(plc_vector p, plc_vector a, plc_vector b) { double l = vp_dist(a, b), t = vp_dot(vp_sub(p, a), vp_sub(b, a)) / (l * l); return t > -1e-7 && t < 0.5 + 1e-7 && vp_dist(p, vp_add(a, vp_mul(t, vp_sub(b, a)))) < 1e-6; }
static plc_constraint *cstat(plc_constraint *l, int cmp, int v) { for (; l; l = l->next) if (l->cmp == cmp && v >= l->vert && v < l->vert + l->num_verts) return l; return NULL; }
static int cstsame(plc_constraint *a, plc_constraint *b) { /* the numbers that matter for the kind */
  if (a->kind != b->kind || !vp_same(&a->vect[0], &b->vect[0], sizeof(plc_vector))) return 0;
  if (a->kind == line) return vp_same(&a->vect[1], &b->vect[1], sizeof(plc_vector));
  return a->kind != plane || vp_same(&a->vect[1].c[0], &b->vect[1].c[0], sizeof(double));
}
static void t_double(void) {
  plCurve *L = goodc(4, 8, vh_int(0, 1) ? VP_NOCST : 0);
  fixcc(L);
  vp_snap s; vp_take(L, &s);
  vh_case("plc_double_verts"); vp_desc(L); vh_go(1);
  plCurve *R = plc_double_verts(L);
  const char *d = vp_diff(L, &s, 63); CHECK(!d, "original changed: %s", d);
  CHECK(R && R != L && R->nc == L->nc, "components");
  for (int i = 0; i < L->nc; i++) {
    int nv = L->cp[i].nv, op = L->cp[i].open;
    CHECK(R->cp[i].nv == 2 * nv && R->cp[i].open == op, "component %d: %d vertices, open %d", i, R->cp[i].nv, R->cp[i].open);
    CHECK(R->cp[i].cc == (L->cp[i].cc == nv && nv > 1 ? 2 * nv : L->cp[i].cc), "component %d: %d colours", i, R->cp[i].cc);
    for (int j = 0; j < R->cp[i].cc; j++) CHECK(!memcmp(&R->cp[i].clr[j], &L->cp[i].clr[R->cp[i].cc == 1 ? 0 : j / 2], sizeof(plc_color)), "component %d: colour %d", i, j);
    for (int j = 0; j < nv; j++) {
      if (op && j == 0) CHECK(vp_dist(R->cp[i].vt[0], L->cp[i].vt[0]) < 1e-9, "component %d: first vertex moved", i);
      else CHECK(onseg(R->cp[i].vt[2 * j], L->cp[i].vt[j], L->cp[i].vt[j - 1]), "component %d: new vertex %d is not on the half edge before vertex %d", i, 2 * j, j);
      if (op && j == nv - 1) CHECK(vp_dist(R->cp[i].vt[2 * j + 1], L->cp[i].vt[j]) < 1e-9, "component %d: last vertex moved", i);
      else CHECK(onseg(R->cp[i].vt[2 * j + 1], L->cp[i].vt[j], L->cp[i].vt[j + 1]) || (op && j == 0), "component %d: new vertex %d is not on the half edge after vertex %d", i, 2 * j + 1, j);
      if (!op || (j > 0 && j < nv - 1)) { /* the corner is cut symmetrically, keeping the inscribed circle */
        plc_vector v = L->cp[i].vt[j], in = vp_sub(v, L->cp[i].vt[j - 1]), out = vp_sub(L->cp[i].vt[j + 1], v);
        double d0 = vp_dist(R->cp[i].vt[2 * j], v), d1 = vp_dist(R->cp[i].vt[2 * j + 1], v), a = vp_len(in), b = vp_len(out), h = fmin(a, b) / 2;
        plc_vector x = {{in.c[1] * out.c[2] - in.c[2] * out.c[1], in.c[2] * out.c[0] - in.c[0] * out.c[2], in.c[0] * out.c[1] - in.c[1] * out.c[0]}};
        double half = 0.5 * atan2(vp_len(x), vp_dot(in, out)), mr = h / tan(half); /* half turning angle, least radius */
        CHECK(fabs(d0 - d1) < 1e-6, "component %d: the two points for vertex %d lie at distances %.17g and %.17g", i, j, d0, d1);
        if (half > 1e-2 && mr < 900) { double w = h - mr * tan(half / 2); CHECK(fabs(d0 - w) < 1e-6 * (1 + w), "component %d: the points for vertex %d lie at distance %.17g, expected %.17g", i, j, d0, w); }
      }
    }
    if (op) {
      plc_vector q = vp_add(vp_mul(0.75, L->cp[i].vt[0]), vp_mul(0.25, L->cp[i].vt[1])), q2 = vp_add(vp_mul(0.25, L->cp[i].vt[nv - 2]), vp_mul(0.75, L->cp[i].vt[nv - 1]));
      CHECK(vp_dist(R->cp[i].vt[1], q) < 1e-9, "component %d: second vertex is not a quarter along the first edge", i);
      CHECK(vp_dist(R->cp[i].vt[2 * nv - 2], q2) < 1e-9, "component %d: last but one vertex is not a quarter along the last edge", i);
    }
    for (int v = 0; v < 2 * nv; v++) { plc_constraint *n = cstat(R->cst, i, v), *o = cstat(L->cst, i, v / 2); if (n) CHECK(o && cstsame(o, n), "component %d: constraint on new vertex %d is not the one of vertex %d", i, v, v / 2); }
    for (plc_constraint *o = L->cst; o; o = o->next) if (o->cmp == i) {
      int got = 0, want = o->kind == fixed ? 1 : 2 * o->num_verts - 1;
      for (int v = 2 * o->vert; v < 2 * (o->vert + o->num_verts); v++) if (cstat(R->cst, i, v)) got++;
      CHECK(got >= want, "component %d: the constraint from vertex %d on %d vertices covers %d new vertices", i, o->vert, o->num_verts, got);
      if (op && o->kind == plane && o->vert == nv - 1) CHECK(cstat(R->cst, i, 2 * nv - 1), "component %d: the end point lost its plane", i);
      if (op && o->vert == 0) CHECK(cstat(R->cst, i, 0), "component %d: the first point lost its constraint", i);
    }
  }
  d = vp_wrapped(R); CHECK(!d, "%s", d);
  plc_free(R); vp_drop(&s); vp_free(L);
}
static void t_delete(void) {
  plCurve *L = vp_rand(4, 8, 0);
  fixcc(L);
  int cp = vh_int(0, L->nc - 1), nv = L->cp[cp].nv, op = L->cp[cp].open, a = vh_int(0, nv - 1), b = vh_int(0, nv - 1);
  vp_snap s; vp_take(L, &s);
  vh_case("plc_delete_arc"); vp_desc(L); vh_add("component %d from %d to %d", cp, a, b); vh_go(1);
  int all = op ? a == 0 && b == nv - 1 : a == b + 1 || (a == 0 && b == nv - 1);
  if (all && L->nc == 1) { vp_drop(&s); vp_free(L); return; } /* a curve keeps at least one component */
  plCurve *R = plc_delete_arc(L, cp, a, b);
  const char *d = vp_diff(L, &s, 63); CHECK(!d, "original changed: %s", d);
  CHECK(!R->cst, "constraints left");
  /* expected pieces */
  int st[2], n[2], np = 0, pop = 1;
  if (op) { if (a > b) { st[0] = 0; n[0] = nv; np = 1; } else { if (a > 0) st[np] = 0, n[np++] = a; if (b < nv - 1) st[np] = b + 1, n[np++] = nv - 1 - b; } }
  else if (!all) { st[0] = b + 1; n[0] = a <= b ? nv - (b - a + 1) : a - b - 1; np = 1; }
  CHECK(R->nc == L->nc - 1 + np, "%d components, expected %d", R->nc, L->nc - 1 + np);
  for (int i = 0, k = 0; i < L->nc; i++) {
    if (i != cp) {
      CHECK(R->cp[k].nv == s.nv[i] && R->cp[k].open == s.open[i] && R->cp[k].cc == s.cc[i], "component %d became %d with another shape", i, k);
      for (int j = 0; j < s.nv[i]; j++) CHECK(vp_same(&R->cp[k].vt[j], &s.vt[i][j], sizeof(plc_vector)), "vertex %d of the untouched component %d", j, i);
      for (int j = 0; j < s.cc[i]; j++) CHECK(vp_same(&R->cp[k].clr[j], &s.clr[i][j], sizeof(plc_color)), "colour %d of the untouched component %d", j, i);
      k++;
    } else for (int p = 0; p < np; p++, k++) {
      CHECK(R->cp[k].nv == n[p], "piece %d has %d vertices, expected %d", p, R->cp[k].nv, n[p]);
      CHECK(R->cp[k].open, "piece %d is not open", p);
      for (int j = 0; j < n[p]; j++) CHECK(vp_same(&R->cp[k].vt[j], &s.vt[cp][(st[p] + j) % nv], sizeof(plc_vector)), "vertex %d of piece %d", j, p);
    }
  }
  d = vp_wrapped(R); CHECK(!d, "%s", d);
  plc_free(R); vp_drop(&s); vp_free(L);
}
static void t_spline(void) {
  plCurve *L = goodc(3, 8, 0);
  if (vh_int(0, 1)) { double f = pow(10, vh_real(-1, 2)); for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) L->cp[i].vt[j] = vp_mul(f, L->cp[i].vt[j]); vp_wrap(L); }
  fixcc(L);
  vp_snap s; vp_take(L, &s);
  vh_case("plc_convert_to_spline"); vp_desc(L); 
  bool ok = false;
  long l0 = vh_live;
  plc_spline *S = plc_convert_to_spline(L, &ok);
  vh_go(1);
  const char *d = vp_diff(L, &s, 63); CHECK(!d, "curve changed: %s", d);
  CHECK(S && ok && S->nc == L->nc, "no spline");
  int nc = 0; for (plc_constraint *c = S->cst; c; c = c->next) nc++;
  CHECK(nc == s.ncst, "%d constraints instead of %d", nc, s.ncst);
  for (plc_constraint *c = L->cst; c; c = c->next) { int f = 0; for (plc_constraint *q = S->cst; q; q = q->next) if (q->cmp == c->cmp && q->vert == c->vert && q->num_verts == c->num_verts && cstsame(c, q)) f++; CHECK(f == 1, "constraint on vertex %d of component %d is %d times in the spline", c->vert, c->cmp, f); }
  for (int i = 0; i < L->nc; i++) {
    int nv = L->cp[i].nv, op = L->cp[i].open, e = op ? nv - 1 : nv;
    double len = 0, scale = 0;
    for (int j = 0; j < e; j++) { CHECK(fabs(S->cp[i].svals[j] - len) < 1e-9 * (1 + len), "component %d: arclength value %d is %.17g, expected %.17g", i, j, S->cp[i].svals[j], len); len += vp_dist(L->cp[i].vt[j], L->cp[i].vt[j + 1]); scale = fmax(scale, vp_len(L->cp[i].vt[j])); }
    CHECK(fabs(S->cp[i].svals[e] - len) < 1e-9 * (1 + len), "component %d: length", i);
    CHECK(S->cp[i].ns == nv && S->cp[i].open == op && S->cp[i].cc == L->cp[i].cc, "component %d: shape", i);
    vh_set_fn("plc_sample_spline");
    for (int j = op ? 0 : 0; j < e; j++) { plc_vector p = plc_sample_spline(S, i, S->cp[i].svals[j]); CHECK(vp_dist(p, L->cp[i].vt[j]) < 1e-6 * (1 + scale), "component %d: the spline misses vertex %d by %g", i, j, vp_dist(p, L->cp[i].vt[j])); }
    if (op) { plc_vector p = plc_sample_spline(S, i, S->cp[i].svals[e] * (1 - 1e-14)); CHECK(vp_dist(p, L->cp[i].vt[e]) < 1e-6 * (1 + scale), "component %d: the spline misses the last vertex", i); }
    double h = 1e-5 * len;
    for (int k = 0; k < 4; k++) {
      int j = vh_int(0, e - 1);
      double t = k < 2 ? len * vh_real(0.02, 0.98) : S->cp[i].svals[j];
      if (t < 0.01 * len || t > 0.99 * len) continue;
      plc_vector a = plc_sample_spline(S, i, t - h), b = plc_sample_spline(S, i, t), c = plc_sample_spline(S, i, t + h);
      plc_vector v1 = vp_mul(1 / h, vp_sub(b, a)), v2 = vp_mul(1 / h, vp_sub(c, b));
      double m = 0; for (int q = 0; q <= e; q++) m = fmax(m, vp_len(S->cp[i].vt2[q]));
      CHECK(vp_dist(v1, v2) < 1e-5 + 3 * h * m, "component %d: the spline has a corner at s=%.17g", i, t);
      vh_set_fn("plc_spline_tangent");
      plc_vector tg = plc_spline_tangent(S, i, t);
      CHECK(vp_dist(tg, v1) < 1e-5 + 3 * h * m, "component %d: tangent at s=%.17g is (%g,%g,%g), difference quotient (%g,%g,%g)", i, t, plc_M_clist(tg), plc_M_clist(v1));
      vh_set_fn("plc_sample_spline");
      if (!op) { plc_vector w = plc_sample_spline(S, i, t + len * (int)vh_int(-2, 2)); CHECK(vp_dist(w, b) < 1e-6 * (1 + scale), "component %d: sampling does not wrap around", i); }
    }
    bool ok2; plc_vector y0 = plc_mean_tangent(L, i, 0, &ok2);
    plc_vector t0 = plc_spline_tangent(S, i, 1e-9 * len); vh_set_fn("plc_convert_to_spline");
    double m = vp_len(S->cp[i].vt2[0]) + 1;
    CHECK(vp_dist(t0, y0) < 1e-6 * m, "component %d: initial derivative (%g,%g,%g), expected the mean tangent (%g,%g,%g)", i, plc_M_clist(t0), plc_M_clist(y0));
    plc_vector yn = op ? plc_mean_tangent(L, i, nv - 1, &ok2) : y0;
    plc_vector tn = plc_spline_tangent(S, i, (1 - 1e-9) * len); vh_set_fn("plc_convert_to_spline");
    m = vp_len(S->cp[i].vt2[e]) + vp_len(S->cp[i].vt2[e - 1]) + 1;
    CHECK(vp_dist(tn, yn) < 1e-6 * (m * (1 + len)), "component %d: final derivative (%g,%g,%g), expected the mean tangent (%g,%g,%g)", i, plc_M_clist(tn), plc_M_clist(yn));
  }
  vh_set_fn("plc_convert_from_spline");
  int *nv = malloc(L->nc * sizeof(int));
  for (int i = 0; i < L->nc; i++) nv[i] = vh_int(3, 30), vh_add(" nv[%d]=%d", i, nv[i]);
  plCurve *R = plc_convert_from_spline(S, nv);
  CHECK(R->nc == L->nc, "components");
  for (int i = 0; i < L->nc; i++) {
    int op = L->cp[i].open, e = op ? L->cp[i].nv - 1 : L->cp[i].nv;
    CHECK(R->cp[i].nv == nv[i] && R->cp[i].open == op, "component %d: shape", i);
    CHECK(R->cp[i].cc == (L->cp[i].cc <= 1 ? L->cp[i].cc : nv[i]), "component %d: colours", i);
    if (R->cp[i].cc == 1 && L->cp[i].cc == 1) CHECK(vp_same(R->cp[i].clr, L->cp[i].clr, sizeof(plc_color)), "component %d: colour", i);
    for (int j = 0; j < nv[i]; j++) {
      double t = S->cp[i].svals[e] * j / (op ? nv[i] - 1 : nv[i]);
      plc_vector w = op && j == nv[i] - 1 ? L->cp[i].vt[e] : plc_sample_spline(S, i, t);
      CHECK(vp_dist(w, R->cp[i].vt[j]) < 1e-6 * (1 + vp_len(w)), "component %d: vertex %d is (%g,%g,%g), the spline at s=%g is (%g,%g,%g)", i, j, plc_M_clist(R->cp[i].vt[j]), t, plc_M_clist(w));
      if (R->cp[i].cc > 1) { /* colours lie between the neighbouring ones */
        int k = 0; while (k < e - 1 && S->cp[i].svals[k + 1] <= t) k++;
        double b = (t - S->cp[i].svals[k]) / (S->cp[i].svals[k + 1] - S->cp[i].svals[k]); plc_color *x = &L->cp[i].clr[k], *y = &L->cp[i].clr[(k + 1) % L->cp[i].nv];
        double wr = (1 - b) * x->r + b * y->r, wa = (1 - b) * x->alpha + b * y->alpha;
        CHECK(fabs(wr - R->cp[i].clr[j].r) < 1e-6 && fabs(wa - R->cp[i].clr[j].alpha) < 1e-6, "component %d: colour %d", i, j);
      }
    }
  }
  nc = 0; for (plc_constraint *c = R->cst; c; c = c->next) nc++;
  CHECK(nc == s.ncst, "%d constraints instead of %d", nc, s.ncst);
  for (plc_constraint *c = L->cst; c; c = c->next) {
    int ns = L->cp[c->cmp].nv, N = nv[c->cmp], e = L->cp[c->cmp].open ? ns - 1 : ns, f = 0, near = 0; double len = S->cp[c->cmp].svals[e], sl = S->cp[c->cmp].svals[c->vert], step = len / (L->cp[c->cmp].open ? N - 1 : N);
    for (plc_constraint *q = R->cst; q; q = q->next) if (q->cmp == c->cmp && cstsame(c, q)) {
      f++;
      if (c->vert == 0 ? q->vert != 0 : c->vert == ns - 1 ? q->vert != N - 1 : !(q->vert * step < sl + 1e-9 * len && (q->vert + 1) * step > sl - 1e-9 * len)) continue;
      if (c->kind == fixed || c->num_verts == 1 ? q->num_verts != 1 : c->num_verts == ns ? q->num_verts != N : fabs(q->num_verts - (S->cp[c->cmp].svals[c->vert + c->num_verts] - sl) / step) > 1 + 1e-6) continue;
      near++;
    }
    CHECK(f >= 1, "the constraint on vertex %d of component %d is lost", c->vert, c->cmp);
    CHECK(near >= 1, "the constraint on vertex %d (%d vertices) of component %d does not sit on the corresponding vertices", c->vert, c->num_verts, c->cmp);
  }
  d = vp_wrapped(R); CHECK(!d, "%s", d);
  free(nv);
  plc_free(R); plc_spline_free(S);
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
  vp_drop(&s); vp_free(L);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_double(); t_delete(); t_spline(); }
  return vh_done();
}
