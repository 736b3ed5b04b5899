/* Executable contracts: vector algebra and elementary geometry. */
#include "vp.h"
#define TOL 1e-9
static plc_vector rv(void) {
  switch (vh_int(0, 6)) { case 0: return vp_ivec(2); case 1: return vp_vec(1e-3); case 2: return vp_vec(1e4); case 3: { plc_vector v = {{0, 0, 0}}; v.c[vh_int(0, 2)] = vh_real(-3, 3); return v; } default: return vp_vec(3); }
}
static void dv(const char *n, plc_vector v) { vh_add(" %s=(%.17g,%.17g,%.17g)", n, plc_M_clist(v)); }
#define EQV(r, e) do { plc_vector vr_ = (r), ve_ = (e); for (int k_ = 0; k_ < 3; k_++) CHECK(fabs(vr_.c[k_] - ve_.c[k_]) <= 1e-12 * (mag + fabs(ve_.c[k_])), "(%.17g,%.17g,%.17g) instead of (%.17g,%.17g,%.17g)", plc_M_clist(vr_), plc_M_clist(ve_)); } while (0)
static void algebra(void) {
  plc_vector A = rv(), B = vh_int(0, 6) ? rv() : A, S;
  double a = vh_real(-4, 4), b = vh_real(-4, 4), mag = (1 + vp_len(A)) * (1 + vp_len(B)) * 10;
  if (vh_int(0, 9) == 0) a = vh_int(-1, 1);
  vh_case("plc_vect_sum"); dv("A", A); dv("B", B); vh_add(" a=%.17g b=%.17g", a, b); vh_go(1);
  for (int k = 0; k < 3; k++) S.c[k] = A.c[k] + B.c[k];
  EQV(plc_vect_sum(A, B), S);
  vh_set_fn("plc_vect_diff"); EQV(plc_vect_diff(A, B), vp_sub(A, B));
  vh_set_fn("plc_cross_prod"); EQV(plc_cross_prod(A, B), vp_cross(A, B));
  vh_set_fn("plc_scale_vect"); EQV(plc_scale_vect(a, A), vp_mul(a, A));
  for (int k = 0; k < 3; k++) S.c[k] = A.c[k] * B.c[k];
  vh_set_fn("plc_component_mult"); EQV(plc_component_mult(A, B), S);
  vh_set_fn("plc_vlincomb"); EQV(plc_vlincomb(a, A, b, B), vp_add(vp_mul(a, A), vp_mul(b, B)));
  vh_set_fn("plc_vmadd"); EQV(plc_vmadd(A, a, B), vp_add(A, vp_mul(a, B)));
  vh_set_fn("plc_vweighted"); EQV(plc_vweighted(a, A, B), vp_add(vp_mul(1 - a, A), vp_mul(a, B)));
  vh_set_fn("plc_build_vect"); { plc_vector r = plc_build_vect(A.c[0], A.c[1], A.c[2]); CHECK(!memcmp(&r, &A, sizeof r), "coordinates"); }
  double r;
  vh_set_fn("plc_dot_prod"); r = plc_dot_prod(A, B); CHECK(fabs(r - vp_dot(A, B)) <= 1e-12 * mag, "%.17g", r);
  vh_set_fn("plc_norm"); r = plc_norm(A); CHECK(r >= 0 && fabs(r - vp_len(A)) <= 1e-12 * mag, "%.17g", r);
  vh_set_fn("plc_distance"); r = plc_distance(A, B); CHECK(r >= 0 && fabs(r - vp_dist(A, B)) <= 1e-12 * mag, "%.17g", r);
  vh_set_fn("plc_sq_dist"); r = plc_sq_dist(A, B); CHECK(fabs(r - vp_dist(A, B) * vp_dist(A, B)) <= 1e-12 * mag * mag, "%.17g", r);
  vh_set_fn("plc_vecteq"); CHECK(plc_vecteq(A, A), "a vector differs from itself");
  { plc_vector C = A; int k = vh_int(0, 2); double d = pow(10, vh_real(-13, 1)) * (vh_int(0, 1) ? 1 : -1); C.c[k] += d; vh_add(" C=A%+.3g e%d", d, k); if (fabs(C.c[k] - A.c[k]) > 16 * DBL_EPSILON) CHECK(!plc_vecteq(A, C) && !plc_vecteq(C, A), "different vectors reported equal"); }
  vh_set_fn("plc_component_div");
  { bool ok = vh_int(0, 1); int nz = 1; for (int k = 0; k < 3; k++) if (!(fabs(B.c[k]) > DBL_EPSILON)) nz = 0;
    plc_vector q = plc_component_div(A, B, &ok); CHECK(ok == nz, "ok %d", ok);
    if (nz) { for (int k = 0; k < 3; k++) S.c[k] = A.c[k] / B.c[k]; for (int k = 0; k < 3; k++) CHECK(vp_near(q.c[k], S.c[k], 1e-12), "quotient"); q = plc_component_div(A, B, NULL); for (int k = 0; k < 3; k++) CHECK(vp_near(q.c[k], S.c[k], 1e-12), "quotient"); } }
  vh_set_fn("plc_normalize_vect");
  { bool ok = vh_int(0, 1); double n = vp_len(A); plc_vector q = plc_normalize_vect(A, &ok);
    if (n > 1e-14) { CHECK(ok, "refused"); EQV(q, vp_mul(1 / n, A)); q = plc_normalize_vect(A, NULL); EQV(q, vp_mul(1 / n, A)); CHECK(fabs(vp_len(q) - 1) < 1e-12, "length"); }
    if (n < 1e-17) CHECK(!ok, "zero vector accepted"); }
  vh_set_fn("plc_build_color"); { plc_color c = plc_build_color(A.c[0], A.c[1], A.c[2], a); CHECK(c.r == A.c[0] && c.g == A.c[1] && c.b == A.c[2] && c.alpha == a, "colour"); }
}
/* angle between two vectors at known angle t */
static void angles(void) {
  plc_vector u = vp_unit(), w = vp_unit(), v;
  w = vp_sub(w, vp_mul(vp_dot(w, u), u));
  if (vp_len(w) < 0.2) return;
  w = vp_mul(1 / vp_len(w), w);
  double t = vh_int(0, 4) ? vh_real(0, M_PI) : vh_int(0, 2) * M_PI / 2, la = pow(10, vh_real(-2, 2)), lb = pow(10, vh_real(-2, 2));
  if (vh_int(0, 5) == 0) t = vh_int(0, 1) ? pow(10, vh_real(-7, -1)) : M_PI - pow(10, vh_real(-7, -1));
  v = vp_add(vp_mul(cos(t), u), vp_mul(sin(t), w));
  bool ok = false;
  vh_case("plc_angle"); vh_add("angle %.17g lengths %g %g", t, la, lb); dv("A", vp_mul(la, u)); dv("B", vp_mul(lb, v)); vh_go(1);
  double r = plc_angle(vp_mul(la, u), vp_mul(lb, v), &ok);
  CHECK(ok, "refused");
  CHECK(r >= 0 && r <= M_PI + 1e-15 && fabs(r - t) < 1e-9, "angle %.17g instead of %.17g", r, t);
  plc_vector z = {{0, 0, 0}}; ok = true;
  r = plc_angle(z, v, &ok); CHECK(!ok, "angle with the zero vector accepted");
  vh_set_fn("plc_angle_dist");
  double th = vh_real(-10, 10), ph = vh_real(-10, 10), d = fmod(fabs(th - ph), 2 * M_PI); if (d > M_PI) d = 2 * M_PI - d;
  vh_add(" theta %.17g phi %.17g", th, ph);
  r = plc_angle_dist(th, ph); CHECK(fabs(r - d) < 1e-9, "distance %.17g instead of %.17g", r, d);
  vh_set_fn("plc_rotate_vect");
  plc_vector p = rv(); double mag = 1 + vp_len(p); double sc = pow(10, vh_real(-2, 2)), an = vh_int(0, 3) ? vh_real(-7, 7) : vh_int(-4, 4) * M_PI / 2;
  if (vh_int(0, 7) == 0) p = vp_mul(vh_real(-2, 2), u);
  if (vh_int(0, 4) == 0) { u = vp_mul(0, u); u.c[vh_int(0, 2)] = vh_int(0, 1) ? 1 : -1; }
  dv("p", p); dv("axis", vp_mul(sc, u)); vh_add(" by %.17g", an);
  plc_vector q = plc_rotate_vect(p, vp_mul(sc, u), an), e = vp_rot(p, u, an);
  CHECK(vp_dist(q, e) < 1e-9 * mag, "(%.17g,%.17g,%.17g) instead of (%.17g,%.17g,%.17g)", plc_M_clist(q), plc_M_clist(e));
  q = plc_rotate_vect(p, z, an); CHECK(!memcmp(&q, &p, sizeof p), "rotation about the zero vector moved the point");
}
static void tri(void) {
  plc_vector A = rv(), B = rv(), C = rv(), D = rv(); bool ok;
  if (vh_int(0, 5) == 0) C = vp_add(A, vp_mul(vh_real(-2, 3), vp_sub(B, A)));
  double sz = 1 + vp_len(A) + vp_len(B) + vp_len(C) + vp_len(D);
  vh_case("plc_normal"); dv("A", A); dv("B", B); dv("C", C); dv("D", D); vh_go(1);
  plc_vector n = vp_cross(vp_sub(B, A), vp_sub(C, A)); double nl = vp_len(n);
  ok = vh_int(0, 1);
  plc_vector r = plc_normal(A, B, C, &ok);
  if (nl > 1e-10) { CHECK(ok, "refused"); }
  if (nl > 1e-9 * sz * sz && nl > 1e-9) { CHECK(vp_dist(r, vp_mul(1 / nl, n)) < 1e-6, "normal (%.17g,%.17g,%.17g)", plc_M_clist(r)); }
  if (nl == 0) CHECK(!ok, "degenerate triangle accepted");
  vh_set_fn("plc_circumcenter");
  plc_vector a = A, b = B, c = C; int fl = vh_int(0, 5);
  if (fl) a.c[2] = b.c[2] = c.c[2] = 0;
  double ar = (b.c[0] - a.c[0]) * (c.c[1] - a.c[1]) - (b.c[1] - a.c[1]) * (c.c[0] - a.c[0]), rad = -3;
  int withrad = vh_int(0, 1);
  ok = vh_int(0, 1);
  plc_vector q = plc_circumcenter(a, b, c, withrad ? &rad : NULL, &ok);
  if (!fl && (fabs(a.c[2]) > 1e-12 || fabs(b.c[2]) > 1e-12 || fabs(c.c[2]) > 1e-12)) CHECK(!ok, "triangle outside the plane accepted");
  else if (fabs(ar) > 1e-9 * sz * sz && fabs(ar) > 1e-9) {
    CHECK(ok, "refused");
    double da = vp_dist(q, a), db = vp_dist(q, b), dc = vp_dist(q, c), tl = 1e-9 * (1 + da + sz * sz * sz / fabs(ar));
    CHECK(fabs(da - db) < tl && fabs(da - dc) < tl && fabs(q.c[2]) < 1e-12, "not equidistant: %.17g %.17g %.17g", da, db, dc);
    if (withrad) CHECK(fabs(rad - da) < tl, "radius %.17g instead of %.17g", rad, da);
  } else if (ar == 0) CHECK(!ok, "collinear points accepted");
  vh_set_fn("plc_3plane_intersection");
  plc_vector N[3], P[3]; double det;
  for (int k = 0; k < 3; k++) N[k] = vp_mul(vh_real(0.1, 5), vp_unit()), P[k] = vp_vec(4);
  if (vh_int(0, 6) == 0) N[2] = vp_add(N[0], N[1]);
  if (vh_int(0, 9) == 0) N[vh_int(0, 2)] = vp_mul(0, A);
  for (int k = 0; k < 3; k++) dv("N", N[k]), dv("P", P[k]);
  det = vp_dot(N[0], vp_cross(N[1], N[2])) / ((vp_len(N[0]) + 1e-300) * (vp_len(N[1]) + 1e-300) * (vp_len(N[2]) + 1e-300));
  ok = vh_int(0, 1);
  q = plc_3plane_intersection(N[0], P[0], N[1], P[1], N[2], P[2], &ok);
  if (fabs(det) > 1e-6) { CHECK(ok, "refused"); for (int k = 0; k < 3; k++) CHECK(fabs(vp_dot(vp_sub(q, P[k]), N[k])) < 1e-7 * (1 + vp_len(q)) * (1 + 1 / fabs(det)) * vp_len(N[k]), "not on plane %d", k); }
  if (fabs(det) < 1e-12) CHECK(!ok, "dependent planes accepted");
  vh_set_fn("plc_tetrahedron_inradius");
  double vol = fabs(vp_dot(vp_sub(A, D), vp_cross(vp_sub(B, D), vp_sub(C, D)))) / 6;
  double area = (vp_len(vp_cross(vp_sub(B, A), vp_sub(C, A))) + vp_len(vp_cross(vp_sub(B, A), vp_sub(D, A))) + vp_len(vp_cross(vp_sub(C, A), vp_sub(D, A))) + vp_len(vp_cross(vp_sub(C, B), vp_sub(D, B)))) / 2;
  double ir = plc_tetrahedron_inradius(A, B, C, D);
  if (area > 1e-6) CHECK(fabs(ir - 3 * vol / area) < 1e-9 * sz * (1 + sz * sz / area), "inradius %.17g instead of %.17g", ir, 3 * vol / area);
}
/* quadrilateral A B C D folded along AC by a known angle */
static void dihedral(void) {
  plc_vector A = vp_vec(3), ax = vp_unit(), p = vp_unit();
  p = vp_sub(p, vp_mul(vp_dot(p, ax), ax));
  if (vp_len(p) < 0.2) return;
  p = vp_mul(1 / vp_len(p), p);
  double t = vh_int(0, 5) ? vh_real(0.001, 2 * M_PI - 0.001) : M_PI;
  double h = vh_real(0.2, 4), s1 = vh_real(-1, 5), s2 = vh_real(-1, 5), h1 = vh_real(0.2, 3), h2 = vh_real(0.2, 3);
  plc_vector C = vp_add(A, vp_mul(h, ax)), B = vp_add(A, vp_add(vp_mul(s1, ax), vp_mul(h1, p)));
  plc_vector q = vp_rot(p, ax, t), D = vp_add(A, vp_add(vp_mul(s2, ax), vp_mul(h2, q)));
  vh_case("plc_dihedral_angle"); vh_add("fold %.17g", t); dv("A", A); dv("B", B); dv("C", C); dv("D", D); vh_go(1);
  bool ok = vh_int(0, 1);
  double r = plc_dihedral_angle(A, B, C, D, &ok), r2 = plc_dihedral_angle(A, B, C, D, NULL);
  /* dihedral between the half planes of B and D about A->C, with the library's orientation */
  double e = 2 * M_PI - t; /* D is the half plane of B turned by -e about A->C */
  CHECK(ok, "refused");
  CHECK(r >= -1e-12 && r < 2 * M_PI + 1e-12, "outside [0,2pi)");
  double df = fabs(r - e), df2 = fabs(r - (2 * M_PI - e));
  CHECK(df < 1e-6 || df2 < 1e-6, "dihedral %.17g instead of %.17g or its complement", r, e);
  CHECK(df < 1e-6, "orientation: dihedral %.17g instead of %.17g", r, e);
  CHECK(r == r2, "answer depends on the ok pointer");
  ok = true; plc_dihedral_angle(A, vp_add(A, vp_mul(2, vp_sub(C, A))), C, D, &ok);
  ok = true; r = plc_dihedral_angle(A, B, A, D, &ok);
  CHECK(!ok, "degenerate diagonal accepted");
  r = plc_dihedral_angle(A, B, A, D, NULL);
}
static void randoms(void) {
  vh_case("plc_random_vect"); vh_add("%lu", vh_evals); vh_go(0);
  plc_vector v = plc_random_vect();
  CHECK(fabs(vp_len(v) - 1) < 1e-9, "length %.17g", vp_len(v));
  static gsl_rng *rng = NULL; if (!rng) { rng = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(rng, vh_seed0); }
  vh_set_fn("plc_perturb_vect"); plc_vector a = vp_vec(3), b = a; double R = vh_real(0, 3); dv("v", a); vh_add(" radius %g", R);
  plc_perturb_vect(rng, &b, R);
  CHECK(vp_dist(a, b) <= R * (1 + 1e-12), "moved by %.17g", vp_dist(a, b));
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { for (int k = 0; k < 20; k++) { algebra(); angles(); tri(); dihedral(); } randoms(); }
  return vh_done();
}
