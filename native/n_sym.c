/* P22: symmetries of curves.  Oracle: orthogonal matrices from their definition, positions compared one by one. */
#include "vp.h"
#include "matrix.h"
static plc_vector app(plc_matrix *A, plc_vector v) { plc_vector r; for (int i = 0; i < 3; i++) r.c[i] = (*A)[i][0] * v.c[0] + (*A)[i][1] * v.c[1] + (*A)[i][2] * v.c[2]; return r; }
static plc_vector refl(plc_vector v, plc_vector u) { return vp_sub(v, vp_mul(2 * vp_dot(u, v), u)); }
static int mnear(plc_matrix *A, plc_matrix *B, double tol) { for (int i = 0; i < 9; i++) if (fabs(((double *)A)[i] - ((double *)B)[i]) > tol) return 0; return 1; }
static void mrand(plc_matrix *A) { for (int i = 0; i < 9; i++) ((double *)A)[i] = vh_int(0, 3) ? vh_real(-3, 3) : vh_int(-2, 2); }
static void mdesc(plc_matrix *A) { for (int i = 0; i < 9; i++) vh_add(" %.17g", ((double *)A)[i]); vh_add("\n"); }
static double det(plc_matrix *A) { plc_vector r[3]; memcpy(r, A, sizeof r); return vp_dot(r[0], vp_cross(r[1], r[2])); }
static void t_matrix(void) {
  plc_matrix A, B; mrand(&A); mrand(&B); plc_vector x = vp_vec(4);
  vh_case("plc_matrix_vector_multiply, plc_matrix_matrix_multiply, plc_matrix_copy, plc_build_matrix"); mdesc(&A); mdesc(&B); vh_add("x (%.17g,%.17g,%.17g)", plc_M_clist(x)); vh_go(1);
  long live = vh_live;
  plc_matrix A0, B0; memcpy(A0, A, sizeof A); memcpy(B0, B, sizeof B);
  CHECK(vp_vnear(plc_matrix_vector_multiply(&A, x), app(&A, x), 1e-12), "A x is wrong");
  plc_matrix *P = plc_matrix_matrix_multiply(&A, &B);
  CHECK(vp_vnear(app(P, x), app(&A, app(&B, x)), 1e-10), "(A B) x is not A (B x)");
  free(P);
  plc_matrix *Cp = plc_matrix_copy(&A);
  CHECK(Cp != &A && !memcmp(Cp, &A, sizeof A), "copy differs"); free(Cp);
  plc_vector r[3]; memcpy(r, A, sizeof r);
  plc_matrix *M = plc_build_matrix(r[0], r[1], r[2]);
  CHECK(!memcmp(M, &A, sizeof A), "matrix built from rows differs"); free(M);
  CHECK(!memcmp(A0, A, sizeof A) && !memcmp(B0, B, sizeof B), "operand changed");
  CHECK(vh_live == live, "%ld blocks kept", vh_live - live);
  vh_case("lu_decmp, solve_linear"); mdesc(&A); vh_go(1);
  int zr = vh_int(0, 5) == 0; if (zr) { int k = vh_int(0, 2); for (int j = 0; j < 3; j++) A[k][j] = 0; }
  if (!zr && fabs(det(&A)) < 0.05) return;
  int ix[3]; double d; bool ok = vh_int(0, 1);
  memcpy(A0, A, sizeof A);
  plc_matrix *LU = lu_decmp(&A, ix, &d, &ok);
  if (zr) { CHECK(!LU && !ok, "a matrix with a zero row is reported as decomposed"); CHECK(vh_live == live, "%ld blocks kept", vh_live - live); return; }
  CHECK(LU && ok, "a regular matrix is reported as singular");
  CHECK(vp_near(d * (*LU)[0][0] * (*LU)[1][1] * (*LU)[2][2], det(&A), 1e-9), "the product of the pivots with the sign is not the determinant");
  plc_vector s = solve_linear(LU, ix, x);
  CHECK(vp_dist(app(&A, s), x) < 1e-8 * (1 + vp_len(s)), "A s is not b");
  CHECK(!memcmp(A0, A, sizeof A), "operand changed");
  free(LU);
  CHECK(vh_live == live, "%ld blocks kept", vh_live - live);
}
static void t_kinds(void) {
  plc_vector u = vp_unit(), ax = vp_mul(vh_int(0, 1) ? 1 : vh_real(0.2, 7), u), x = vp_vec(4);
  if (vh_int(0, 3) == 0) { ax.c[0] = ax.c[1] = ax.c[2] = 0; ax.c[vh_int(0, 2)] = vh_real(0.5, 2); u = vp_mul(1 / vp_len(ax), ax); }
  double t = vh_real(-7, 7);
  plc_matrix A;
  vh_case("plc_rotation_matrix"); vh_add("axis (%.17g,%.17g,%.17g) angle %.17g x (%.17g,%.17g,%.17g)", plc_M_clist(ax), t, plc_M_clist(x)); vh_go(1);
  plc_rotation_matrix(ax, t, &A);
  CHECK(vp_vnear(app(&A, x), vp_rot(x, u, t), 1e-10), "not the rotation about the axis by the angle");
  vh_set_fn("plc_reflection_matrix");
  plc_reflection_matrix(ax, &A);
  CHECK(vp_vnear(app(&A, x), refl(x, u), 1e-10), "not the reflection in the plane normal to the axis");
  vh_set_fn("plc_identity_matrix");
  plc_identity_matrix(&A);
  CHECK(vp_vnear(app(&A, x), x, 0), "not the identity");
}
/* a curve which has the symmetries listed: every element of the group sends each vertex near to another */
enum { ROT, REF, PLANES };
static plc_matrix grp[64]; static int ng;
static void mgroup(int kind, plc_vector u, int n) {
  ng = 0;
  if (kind == ROT) for (int k = 0; k < n; k++, ng++) for (int j = 0; j < 3; j++) { plc_vector e = {{j == 0, j == 1, j == 2}}, r = vp_rot(e, u, 2 * M_PI * k / n); for (int i = 0; i < 3; i++) grp[ng][i][j] = r.c[i]; }
  if (kind == REF) for (int k = 0; k < 2; k++, ng++) for (int j = 0; j < 3; j++) { plc_vector e = {{j == 0, j == 1, j == 2}}, r = k ? refl(e, u) : e; for (int i = 0; i < 3; i++) grp[ng][i][j] = r.c[i]; }
  if (kind == PLANES) for (int k = 0; k < 8; k++, ng++) for (int i = 0; i < 9; i++) ((double *)grp[ng])[i] = i % 4 ? 0 : (k >> (i / 4)) & 1 ? -1 : 1;
}
/* components are orbits of random base points: either one component holding a full orbit, or one per element */
static plCurve *symcurve(double eps) {
  int modes = vh_int(0, 1), nb = vh_int(1, 3), comps = modes ? ng : nb;
  plCurve *L = calloc(1, sizeof *L);
  plc_vector base[40]; int k = vh_int(1, 4), tot = 0;
  for (int tries = 0; tot < nb * k && tries < 400; tries++) { /* orbits well apart from each other and from themselves */
    plc_vector b = vp_vec(5); int good = 1;
    for (int g = 0; g < ng && good; g++) { plc_vector c = app(&grp[g], b); if (g && vp_dist(c, b) < 0.4) good = 0; for (int j = 0; j < tot && good; j++) if (vp_dist(c, base[j]) < 0.4) good = 0; }
    if (good) base[tot++] = b;
  }
  nb = tot / k; if (!nb) { nb = 1; k = tot; } if (!tot) { free(L); return NULL; }
  comps = modes ? ng : nb;
  L->nc = comps; L->cp = calloc(comps, sizeof(plc_strand));
  for (int c = 0; c < comps; c++) {
    plc_strand *s = &L->cp[c];
    s->nv = modes ? nb * k : k * ng; s->open = vh_int(0, 1);
    s->vt = (plc_vector *)calloc(s->nv + 2, sizeof(plc_vector)) + 1;
    for (int v = 0; v < s->nv; v++) s->vt[v] = vp_add(modes ? app(&grp[c], base[v]) : app(&grp[v / k], base[c * k + v % k]), vp_mul(eps * vh_unit(), vp_unit()));
    s->clr = NULL; s->cc = 0;
  }
  vp_wrap(L);
  return L;
}
static int near_of(plCurve *L, plc_vector p, int *cp, int *vt) { double m = INFINITY, m2 = INFINITY; for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) { double d = vp_dist(p, L->cp[c].vt[v]); if (d < m) m2 = m, m = d, *cp = c, *vt = v; else if (d < m2) m2 = d; } return m2 - m > 1e-9; }
static void ck_sym(plc_symmetry *S, plc_matrix *A, plCurve *L) {
  CHECK(S && S->curve == L && S->transform != A && mnear(S->transform, A, 1e-12), "the symmetry does not hold the transformation");
  for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) { int a, b; if (near_of(L, app(A, L->cp[c].vt[v]), &a, &b)) CHECK(S->target[c][v].cp == a && S->target[c][v].vt == b, "vertex %d,%d goes to %d,%d instead of %d,%d", c, v, S->target[c][v].cp, S->target[c][v].vt, a, b); }
}
static double sym_err(plCurve *L, plc_symmetry *S, plc_vector *buf) {
  double m = 0;
  for (int c = 0, k = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++, k++) {
    int a = S->target[c][v].cp, b = S->target[c][v].vt, q = b; for (int i = 0; i < a; i++) q += L->cp[i].nv;
    double d = vp_dist(app(S->transform, buf ? buf[k] : L->cp[c].vt[v]), buf ? buf[q] : L->cp[a].vt[b]);
    if (d > m) m = d;
  }
  return m;
}
static void t_group(void) {
  int kind = vh_int(0, 2), n = vh_int(1, 7);
  plc_vector u = vp_unit(); if (vh_int(0, 1)) u.c[0] = u.c[1] = 0, u.c[2] = 1;
  mgroup(kind, u, n);
  double eps = vh_int(0, 1) ? 0.05 : 0;
  plCurve *L = symcurve(eps); if (!L) return;
  long live = vh_live;
  vh_case(kind == ROT ? "plc_rotation_group" : kind == REF ? "plc_reflection_group" : "plc_coordplanes_reflection_group");
  vh_add("axis (%.17g,%.17g,%.17g) order %d perturbed by %g\n", plc_M_clist(u), n, eps); vp_desc(L); vh_go(1);
  vp_snap s; vp_take(L, &s); live = vh_live;
  plc_vector ax = vp_mul(vh_real(0.3, 3), u);
  plc_symmetry_group *G = kind == ROT ? plc_rotation_group(L, ax, n) : kind == REF ? plc_reflection_group(L, ax) : plc_coordplanes_reflection_group(L);
  const char *e = vp_diff(L, &s, 63); CHECK(!e, "the curve changed: %s", e);
  CHECK(G, "the curve has the symmetry, but no group was built");
  CHECK(G->n == ng, "%d elements, the group has %d", G->n, ng);
  int at[64];
  for (int i = 0; i < ng; i++) { at[i] = -1; for (int j = 0; j < ng; j++) if (mnear(&grp[i], G->sym[j]->transform, 1e-9)) at[i] = j; CHECK(at[i] >= 0, "element %d of the group is missing", i); }
  for (int i = 0; i < ng; i++) { ck_sym(G->sym[at[i]], &grp[i], L); }
  for (int i = 0; i < ng; i++) { CHECK(G->inverse[i] >= 0 && G->inverse[i] < ng, "inverse of %d is %d", i, G->inverse[i]); plc_vector x = vp_vec(3); CHECK(vp_vnear(app(G->sym[G->inverse[i]]->transform, app(G->sym[i]->transform, x)), x, 1e-9), "element %d is not the inverse of %d", G->inverse[i], i); }
  vh_set_fn("plc_compose_symmetries");
  { int a = vh_int(0, ng - 1), b = vh_int(0, ng - 1); plc_symmetry *S = plc_compose_symmetries(G->sym[a], G->sym[b]); plc_vector x = vp_vec(3);
    CHECK(vp_vnear(app(S->transform, x), app(G->sym[b]->transform, app(G->sym[a]->transform, x)), 1e-10), "not the first followed by the second");
    for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) { struct plc_vertex_loc t = G->sym[a]->target[c][v]; t = G->sym[b]->target[t.cp][t.vt]; CHECK(S->target[c][v].cp == t.cp && S->target[c][v].vt == t.vt, "vertex %d,%d", c, v); }
    plc_symmetry *T = plc_symmetry_copy(S); CHECK(T != S && T->transform != S->transform && T->target != S->target && mnear(T->transform, S->transform, 0), "copy"); for (int c = 0; c < L->nc; c++) CHECK(!memcmp(T->target[c], S->target[c], L->cp[c].nv * sizeof **T->target), "copy: targets");
    plc_symmetry_free(&S); CHECK(!S, "pointer not cleared"); plc_symmetry_free(&S); plc_symmetry_free(&T); }
  vh_set_fn("plc_symmetry_group_copy");
  plc_symmetry_group *H = plc_symmetry_group_copy(G);
  CHECK(H != G && H->n == G->n && !memcmp(H->inverse, G->inverse, ng * sizeof(int)), "group copy differs");
  for (int i = 0; i < ng; i++) { CHECK(H->sym[i] != G->sym[i], "copy shares storage"); ck_sym(H->sym[i], G->sym[i]->transform, L); }
  plc_symmetry_group_free(&H); CHECK(!H, "pointer not cleared");
  /* error measures */
  L->G = G;
  int nv = 0; for (int c = 0; c < L->nc; c++) nv += L->cp[c].nv;
  plc_vector *buf = calloc(nv, sizeof *buf); for (int i = 0; i < nv; i++) buf[i] = vp_vec(3);
  double m = 0, mb = 0; for (int i = 0; i < ng; i++) { double d = sym_err(L, G->sym[i], NULL), q = sym_err(L, G->sym[i], buf);
    vh_set_fn("plc_symmetry_check"); CHECK(vp_near(plc_symmetry_check(L, G->sym[i]), d, 1e-12), "not the largest distance from the target");
    vh_set_fn("plc_symmetry_variation_check"); CHECK(vp_near(plc_symmetry_variation_check(L, buf, G->sym[i]), q, 1e-12), "not the largest difference from the target");
    if (d > m) m = d; if (q > mb) mb = q; }
  vh_set_fn("plc_symmetry_group_check"); CHECK(vp_near(plc_symmetry_group_check(L), m, 1e-12), "not the largest over the group");
  vh_set_fn("plc_symmetry_group_variation_check"); CHECK(vp_near(plc_symmetry_group_variation_check(L, buf), mb, 1e-12), "not the largest over the group");
  /* averaging: position of v becomes the mean over g of g^-1 (position of g v) */
  plc_vector *want = calloc(2 * nv, sizeof *want);
  for (int c = 0, k = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++, k++) for (int i = 0; i < ng; i++) {
    plc_symmetry *S = G->sym[at[i]]; int a = S->target[c][v].cp, b = S->target[c][v].vt, q = b; for (int j = 0; j < a; j++) q += L->cp[j].nv;
    plc_matrix T; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) T[x][y] = grp[i][y][x];
    want[k] = vp_add(want[k], vp_mul(1.0 / ng, app(&T, L->cp[a].vt[b]))); want[nv + k] = vp_add(want[nv + k], vp_mul(1.0 / ng, app(&T, buf[q])));
  }
  vh_set_fn("plc_symmetrize_variation"); plc_symmetrize_variation(L, buf);
  e = vp_diff(L, &s, 63); CHECK(!e, "the curve changed: %s", e);
  for (int k = 0; k < nv; k++) CHECK(vp_dist(buf[k], want[nv + k]) < 1e-9, "entry %d is not the average over the group", k);
  vh_set_fn("plc_symmetrize"); plc_symmetrize(L);
  for (int c = 0, k = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++, k++) CHECK(vp_dist(L->cp[c].vt[v], want[k]) < 1e-9, "vertex %d,%d is not the average over the group", c, v);
  e = vp_diff(L, &s, 1 | 8 | 16 | 32); CHECK(!e, "%s", e);
  e = vp_wrapped(L); CHECK(!e, "%s", e);
  CHECK(plc_symmetry_group_check(L) < 1e-8, "not symmetric afterwards");
  free(buf); free(want);
  /* edits and release with a group attached */
  plCurve *K = plc_copy(L);
  vh_set_fn("plc_copy"); CHECK(K->G && K->G != L->G && K->G->n == ng, "group not copied");
  vh_set_fn("plc_free (a curve with a group)");
  if (vh_int(0, 1)) { plc_free(K); K = NULL; }
  vh_set_fn("plc_symmetry_group_free"); plc_symmetry_group_free(&L->G); CHECK(!L->G, "pointer not cleared"); plc_symmetry_group_free(&L->G);
  vp_drop(&s); live -= 2 * L->nc;
  vp_free(L);
  if (K) {
    int op = vh_int(0, 7);
    if (op == 0 && K->nc > 1) { vh_set_fn("plc_drop_component (a curve with a group)"); plc_drop_component(K, vh_int(0, K->nc - 1)); }
    else if (op == 1) { vh_set_fn("plc_add_component (a curve with a group)"); plc_vector v[3] = {vp_vec(1), vp_vec(1), vp_vec(1)}; plc_add_component(K, vh_int(0, K->nc), 3, true, 0, v, NULL); }
    else if (op == 2) { vh_set_fn("plc_rotate (a curve with a group)"); plc_rotate(K, vp_unit(), vh_real(0, 6)); CHECK(K->G && plc_symmetry_group_check(K) < 1e-8, "the rotated curve is not symmetric under its group"); }
    else if (op == 3) { vh_set_fn("plc_scale (a curve with a group)"); plc_scale(K, vh_real(0.3, 3)); CHECK(!K->G || plc_symmetry_group_check(K) < 1e-8, "the scaled curve is not symmetric under its group"); }
    else if (op == 4) { vh_set_fn("plc_translate (a curve with a group)"); plc_translate(K, vp_vec(2)); CHECK(!K->G || plc_symmetry_group_check(K) < 1e-8, "the translated curve is not symmetric under its group"); }
    else if (op == 5) { vh_set_fn("plc_whitten (a curve with a group)"); int eps[64], pm[128]; for (int i = 0; i < K->nc; i++) eps[i] = vh_int(0, 1) ? 1 : -1, pm[i] = pm[i + K->nc] = i; int m = vh_int(0, 1) ? 1 : -1; vh_add("mirror %d eps", m); for (int i = 0; i < K->nc; i++) vh_add(" %d", eps[i]);
      plc_whitten(K, m, eps, pm); CHECK(!K->G || plc_symmetry_group_check(K) < 1e-8, "afterwards the curve is not symmetric under its group"); }
    else if (op == 6) { vh_set_fn("plc_delete_arc (a curve with a group)"); int c = vh_int(0, K->nc - 1); plCurve *D = plc_delete_arc(K, c, 0, vh_int(0, K->cp[c].nv - 1)); if (D) { CHECK(!D->G, "symmetries that refer to deleted vertices"); plc_free(D); } }
    plc_free(K);
  }
  (void)live;
}
static void t_compose(void) { /* any two symmetries, also of different groups */
  plCurve *L = vp_rand(3, 6, VP_NOCST | VP_NOCLR);
  long live = vh_live;
  plc_symmetry *S[2]; plc_matrix M[2];
  vh_case("plc_compose_symmetries");
  int nv = 0; for (int c = 0; c < L->nc; c++) nv += L->cp[c].nv;
  for (int i = 0; i < 2; i++) {
    for (int k = 0; k < 9; k++) ((double *)M[i])[k] = vh_int(0, 2) ? vh_real(-2, 2) : vh_int(-2, 2);
    mdesc(&M[i]);
    S[i] = plc_symmetry_new(L); S[i]->transform = plc_matrix_copy(&M[i]);
    for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) { int q = vh_int(0, nv - 1), a = 0; while (q >= L->cp[a].nv) q -= L->cp[a++].nv; S[i]->target[c][v].cp = a; S[i]->target[c][v].vt = q; vh_add("%d,%d->%d,%d ", c, v, a, q); }
  }
  vp_desc(L); vh_go(1);
  plc_symmetry *C = plc_compose_symmetries(S[0], S[1]);
  plc_vector x = vp_vec(3);
  CHECK(C->curve == L && vp_vnear(app(C->transform, x), app(&M[1], app(&M[0], x)), 1e-10), "not the first matrix followed by the second");
  CHECK(mnear(S[0]->transform, &M[0], 0) && mnear(S[1]->transform, &M[1], 0), "a factor changed");
  for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) { struct plc_vertex_loc t = S[0]->target[c][v]; t = S[1]->target[t.cp][t.vt]; CHECK(C->target[c][v].cp == t.cp && C->target[c][v].vt == t.vt, "vertex %d,%d", c, v); }
  plc_symmetry_free(&C); plc_symmetry_free(&S[0]); plc_symmetry_free(&S[1]);
  CHECK(vh_live == live, "%ld blocks kept", vh_live - live);
  vp_free(L);
}
static void t_keep(void) { /* whole life: everything is returned */
  mgroup(vh_int(0, 2), vp_unit(), vh_int(2, 5));
  long live = vh_live;
  plCurve *L = vp_rand(3, 8, VP_NOCST | VP_NOCLR);
  plc_symmetry *S;
  plc_matrix *A = &grp[vh_int(0, ng - 1)];
  vh_case("plc_build_symmetry"); mdesc(A); vp_desc(L); vh_go(1);
  int hits[64] = {0}, clash = 0, sure = 1;
  for (int c = 0; c < L->nc; c++) for (int v = 0; v < L->cp[c].nv; v++) { int a, b; if (!near_of(L, app(A, L->cp[c].vt[v]), &a, &b)) sure = 0; int q = b; for (int j = 0; j < a; j++) q += L->cp[j].nv; if (hits[q]++) clash = 1; }
  S = plc_build_symmetry(A, L);
  if (sure) { CHECK(!S == clash, clash ? "two vertices have the same target, but a symmetry was built" : "no symmetry was built, although all targets differ"); if (S) ck_sym(S, A, L); }
  if (S) plc_symmetry_free(&S);
  vh_set_fn("plc_coordplanes_reflection_group, plc_rotation_group, plc_reflection_group");
  plc_symmetry_group *G = vh_int(0, 2) ? plc_coordplanes_reflection_group(L) : vh_int(0, 1) ? plc_rotation_group(L, vp_unit(), vh_int(1, 5)) : plc_reflection_group(L, vp_unit());
  if (G) for (int i = 0; i < G->n; i++) CHECK(G->sym[i], "a group with a missing element");
  plc_symmetry_group_free(&G);
  vp_free(L);
  CHECK(vh_live == live, "%ld blocks kept", vh_live - live);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) {
    t_matrix(); t_kinds(); t_compose(); t_keep();
    long live = vh_live; t_group(); CHECK(vh_live == live, "%ld blocks kept", vh_live - live);
  }
  return vh_done();
}
