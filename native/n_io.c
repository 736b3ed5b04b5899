/* Executable contracts: curve files. */
#include "vp.h"
static char *text(plCurve *L, size_t *n) { char *b = NULL; FILE *f = open_memstream(&b, n); plc_write(f, L); fclose(f); return b; }
static plCurve *rd(const char *t, size_t n, int *err, char *msg, size_t ml) { FILE *f = n ? fmemopen((void *)t, n, "r") : fopen("/dev/null", "r"); plCurve *L = plc_read(f, err, msg, ml); fclose(f); return L; }
static int close16(double a, double b) { return a == b || fabs(a - b) <= 2e-15 * (fabs(a) + fabs(b)); }
static double rnum(void) { int k = vh_int(0, 5); double v = vh_real(-1, 1); return k == 0 ? vh_int(-3, 3) : k == 1 ? v * pow(10, vh_real(-200, 200)) : k == 2 ? v * pow(10, vh_real(-12, 0)) : v * 5; }
static void compare(plCurve *L, plCurve *R) {
  CHECK(R->nc == L->nc, "%d components instead of %d", R->nc, L->nc);
  for (int i = 0; i < L->nc; i++) {
    CHECK(R->cp[i].nv == L->cp[i].nv && R->cp[i].open == L->cp[i].open && R->cp[i].cc == L->cp[i].cc, "component %d: shape", i);
    for (int j = 0; j < L->cp[i].nv; j++) for (int k = 0; k < 3; k++) CHECK(close16(R->cp[i].vt[j].c[k], L->cp[i].vt[j].c[k]), "component %d vertex %d coordinate %d: %.17g instead of %.17g", i, j, k, R->cp[i].vt[j].c[k], L->cp[i].vt[j].c[k]);
    for (int j = 0; j < L->cp[i].cc; j++) { plc_color *a = &R->cp[i].clr[j], *b = &L->cp[i].clr[j]; CHECK(close16(a->r, b->r) && close16(a->g, b->g) && close16(a->b, b->b) && close16(a->alpha, b->alpha), "component %d colour %d", i, j); }
    for (int j = 0; j < L->cp[i].nv; j++) {
      plc_constraint *a = NULL, *b = NULL;
      for (plc_constraint *c = L->cst; c; c = c->next) if (c->cmp == i && j >= c->vert && j < c->vert + c->num_verts) a = c;
      for (plc_constraint *c = R->cst; c; c = c->next) if (c->cmp == i && j >= c->vert && j < c->vert + c->num_verts) b = c;
      CHECK(!a == !b, "vertex %d of component %d: constraint %s", j, i, a ? "lost" : "invented");
      if (a) { CHECK(a->kind == b->kind, "vertex %d of component %d: constraint kind %d instead of %d", j, i, b->kind, a->kind);
        for (int q = 0; q < 2; q++) for (int k = 0; k < 3; k++) CHECK(close16(a->vect[q].c[k], b->vect[q].c[k]), "vertex %d of component %d: constraint vector %.17g instead of %.17g", j, i, b->vect[q].c[k], a->vect[q].c[k]); }
    }
  }
  const char *d = vp_wrapped(R); CHECK(!d, "%s", d);
}
static void one(void) {
  int many = vh_int(0, 3) == 0;
  plCurve *L = vp_rand(4, many ? 40 : 8, 0);
  if (vh_int(0, 1)) for (int i = 0; i < L->nc; i++) { for (int j = 0; j < L->cp[i].nv; j++) for (int k = 0; k < 3; k++) L->cp[i].vt[j].c[k] = rnum(); for (int j = 0; j < L->cp[i].cc; j++) L->cp[i].clr[j].g = rnum(); }
  if (vh_int(0, 1)) for (plc_constraint *c = L->cst; c; c = c->next) for (int k = 0; k < 3; k++) { c->vect[0].c[k] = rnum(); if (c->kind == line) c->vect[1].c[k] = rnum(); }
  if (vh_int(0, 1)) { /* few different constraints, each on several runs of vertices */
    plc_vector pool[4]; for (int q = 0; q < 4; q++) for (int k = 0; k < 3; k++) pool[q].c[k] = rnum();
    int nk = vh_int(1, 2), same = vh_int(0, 1);
    for (plc_constraint *c = L->cst; c; c = c->next) { int q = vh_int(0, nk); c->vect[0] = pool[q]; if (c->kind == line) c->vect[1] = pool[same ? q : vh_int(0, 3)]; if (c->kind == plane) c->vect[1].c[0] = pool[same ? q : vh_int(0, 3)].c[0]; }
  }
  vp_wrap(L);
  vp_snap s; vp_take(L, &s);
  vh_case("plc_write"); vp_desc(L); vh_go(L->cst != NULL);
  size_t n; char *t = text(L, &n);
  { /* the announced numbers are those of the curve */
    int a = -1, b = -1, c = -1, nv = 0, cc = 0; char *h = strchr(t, '\n');
    for (int i = 0; i < L->nc; i++) nv += L->cp[i].nv, cc += L->cp[i].cc;
    CHECK(!strncmp(t, "VECT", 4) && h && sscanf(h, " %d %d %d", &a, &b, &c) == 3, "no header");
    CHECK(a == L->nc && b == nv && c == cc, "the header announces %d components, %d vertices, %d colours instead of %d, %d, %d", a, b, c, L->nc, nv, cc);
  }
  const char *d = vp_diff(L, &s, 63); CHECK(!d, "writing changed the curve: %s", d);
  int err = -5; size_t ml = vh_int(1, 80); char *msg = malloc(ml);
  vh_set_fn("plc_read");
  long l0 = vh_live;
  plCurve *R = rd(t, n, &err, msg, ml);
  CHECK(R && err == 0, "a written curve is not read back (error %d)", err);
  compare(L, R);
  if (vh_int(0, 1)) { /* what was read can be written and read again */
    size_t n2; char *t2 = text(R, &n2);
    plCurve *Q = rd(t2, n2, &err, msg, ml);
    CHECK(Q && err == 0, "second round trip failed");
    compare(R, Q); plc_free(Q); free(t2);
  }
  plc_free(R);
  CHECK(vh_live == l0, "%ld blocks left after reading and freeing", vh_live - l0);
  if (vh_int(0, 2) == 0) { /* blank lines and spaces do not matter */
    char *u = malloc(3 * n + 1); size_t m = 0;
    for (size_t k = 0; k < n; k++) { u[m++] = t[k]; if (t[k] == ' ' && vh_int(0, 3) == 0) u[m++] = ' '; }
    u[m] = 0;
    R = rd(u, m, &err, msg, ml);
    CHECK(R && err == 0, "additional blanks are not read");
    compare(L, R); plc_free(R); free(u);
  }
  if (vh_int(0, 2) == 0) { /* a truncated file gives an error or the curve, never a damaged one */
    size_t m = vh_int(0, 3) ? vh_int(5, n - 1) : n - vh_int(1, 40 < n - 1 ? 40 : n - 1);
    vh_add("truncated after %ld of %ld bytes", (long)m, (long)n);
    char *u = malloc(m + 1); memcpy(u, t, m);
    l0 = vh_live;
    err = -5;
    R = rd(u, m, &err, msg, ml);
    if (!R) { CHECK(err != 0 && err != -5, "no curve but error number %d", err); }
    else { CHECK(err == 0, "a curve and error %d", err); CHECK(R->nc == L->nc, "components"); for (int i = 0; i < L->nc; i++) CHECK(R->cp[i].nv == L->cp[i].nv, "component %d has %d vertices", i, R->cp[i].nv); plc_free(R); }
    CHECK(vh_live == l0, "%ld blocks left after a failed read", vh_live - l0);
    free(u);
  }
  free(msg); free(t); vp_drop(&s); vp_free(L);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) one();
  return vh_done();
}
