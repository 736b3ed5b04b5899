/* Executable contracts: struts, radius of curvature, thickness, ropelength. */
#include <float.h>
#include <ctype.h>
#include "octrope.h"
#include "vp.h"
#define MAXE 700
static int nE, ec[MAXE], ev[MAXE];
static plc_vector vat(plCurve *L, int c, int v) { int n = L->cp[c].nv; if (!L->cp[c].open) return L->cp[c].vt[((v % n) + n) % n]; return L->cp[c].vt[v]; }
static double clampd(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static double pt_seg(plc_vector p, plc_vector a, plc_vector b, double *t) { plc_vector d = vp_sub(b, a); double l = vp_dot(d, d); *t = l > 0 ? clampd(vp_dot(vp_sub(p, a), d) / l) : 0; return vp_dist(p, vp_add(a, vp_mul(*t, d))); }
/* the pair of closest points of two segments; nearly parallel segments are reported as such */
static double seg_seg(plc_vector a, plc_vector b, plc_vector c, plc_vector d, double *s, double *t, int *par) {
  plc_vector u = vp_sub(b, a), v = vp_sub(d, c), w = vp_sub(a, c);
  double A = vp_dot(u, u), B = vp_dot(u, v), C = vp_dot(v, v), D = vp_dot(u, w), E = vp_dot(v, w), den = A * C - B * B, best = DBL_MAX;
  *par = den < 1e-9 * A * C;
  if (!*par) { double x = (B * E - C * D) / den, y = (A * E - B * D) / den; if (x >= 0 && x <= 1 && y >= 0 && y <= 1) { *s = x; *t = y; return vp_dist(vp_add(a, vp_mul(x, u)), vp_add(c, vp_mul(y, v))); } }
  double q, r;
  if ((r = pt_seg(a, c, d, &q)) < best) best = r, *s = 0, *t = q;
  if ((r = pt_seg(b, c, d, &q)) < best) best = r, *s = 1, *t = q;
  if ((r = pt_seg(c, a, b, &q)) < best) best = r, *s = q, *t = 0;
  if ((r = pt_seg(d, a, b, &q)) < best) best = r, *s = q, *t = 1;
  return best;
}
/* is the point x (parameter s on edge e) a local minimum of the distance to y along the curve? 2 surely, 1 perhaps, 0 no */
static double sz2; /* square of the size of the curve */
static int localmin(plCurve *L, int c, int v, double s, plc_vector y) {
  int n = L->cp[c].nv, op = L->cp[c].open, r = 2;
  if (s > 1e-7 && s < 1 - 1e-7) return 2;
  if (s > 0 && s < 1) r = 1;
  int k = s < 0.5 ? v : v + 1;
  plc_vector x = vat(L, c, k), g = vp_sub(y, x);
  if (op ? k + 1 < n : 1) { double p = vp_dot(vp_sub(vat(L, c, k + 1), x), g); if (p > 1e-7 * sz2) return r == 1 ? 1 : 0; if (p > -1e-7 * sz2) r = 1; }
  if (op ? k > 0 : 1) { double p = vp_dot(vp_sub(vat(L, c, k - 1), x), g); if (p > 1e-7 * sz2) return r == 1 ? 1 : 0; if (p > -1e-7 * sz2) r = 1; }
  return r;
}
static plCurve *mk(void) {
  int fl = VP_NOCST | VP_NOCLR, big = vh_int(0, 4) == 0;
  plCurve *L;
  for (;;) {
    L = vp_rand(3, big ? 40 : vh_int(0, 2) ? 6 : 12, fl | (vh_int(0, 1) ? VP_CLOSED : 0));
    int bad = 0;
    for (int i = 0; i < L->nc; i++) if (L->cp[i].nv < (L->cp[i].open ? 2 : 3)) bad = 1;
    if (!bad) break;
    vp_free(L);
  }
  if (vh_int(0, 2) == 0) for (int i = 0; i < L->nc; i++) { /* smooth: a perturbed torus curve, so that struts are few and edges turn little */
    int n = L->cp[i].nv; double p = vh_int(1, 2), q = vh_int(1, 3), o = vh_real(0, 6);
    for (int j = 0; j < n; j++) { double t = 6.283185307179586 * j / n; double r = 2 + cos(q * t + o); L->cp[i].vt[j].c[0] = r * cos(p * t) + vh_real(-.05, .05); L->cp[i].vt[j].c[1] = r * sin(p * t) + vh_real(-.05, .05); L->cp[i].vt[j].c[2] = sin(q * t + o) + i * vh_real(0, 2); }
  }
  if (vh_int(0, 2) == 0) { double f = pow(10, vh_real(-3, 2)); for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++) L->cp[i].vt[j] = vp_mul(f, L->cp[i].vt[j]); }
  vp_wrap(L);
  return L;
}
typedef struct { int a, b, sure; double d; } strut;
static strut st[MAXE * MAXE / 2];
static double mr_at(plCurve *L, int c, int v, int side) { /* radius with the edge before (-1) or after (+1) the vertex */
  plc_vector x = vat(L, c, v), i = vp_sub(x, vat(L, c, v - 1)), o = vp_sub(vat(L, c, v + 1), x);
  plc_vector z = {{i.c[1] * o.c[2] - i.c[2] * o.c[1], i.c[2] * o.c[0] - i.c[0] * o.c[2], i.c[0] * o.c[1] - i.c[1] * o.c[0]}};
  double half = 0.5 * atan2(vp_len(z), vp_dot(i, o));
  return vp_len(z) < 1e-11 ? DBL_MAX : (side < 0 ? vp_len(i) : vp_len(o)) / (2 * tan(half));
}
static int digits(double a, double b) { return a == b || fabs(a - b) <= 1e-5 * (fabs(a) + fabs(b)); } /* as many as are written */
static int near(double a, double b) { return a == b || fabs(a - b) <= 1e-6 * (fabs(a) + fabs(b)); }
static void one(void) {
  plCurve *L = mk();
  vp_snap sn; vp_take(L, &sn);
  vh_case("octrope_struts"); vp_desc(L);
  /* the oracle */
  nE = 0; double len = 0, size = 0;
  for (int i = 0; i < L->nc; i++) { int e = L->cp[i].open ? L->cp[i].nv - 1 : L->cp[i].nv; for (int j = 0; j < e; j++) { ec[nE] = i; ev[nE++] = j; double d = vp_dist(vat(L, i, j), vat(L, i, j + 1)); len += d; size = fmax(size, vp_len(vat(L, i, j))); if (d < 1e-5 * size) { vp_drop(&sn); vp_free(L); return; } } }
  sz2 = size * size;
  int ns = 0; double lo = DBL_MAX, hi = DBL_MAX; int odd = 0;
  for (int a = 0; a < nE; a++) for (int b = 0; b < a; b++) {
    int c = ec[a], d = ec[b], n = L->cp[c].nv;
    if (c == d) { int k = abs(ev[a] - ev[b]); if (k < 2 || (!L->cp[c].open && k > n - 2)) continue; }
    double s = 0, t = 0; int par;
    double w = seg_seg(vat(L, c, ev[a]), vat(L, c, ev[a] + 1), vat(L, d, ev[b]), vat(L, d, ev[b] + 1), &s, &t, &par);
    plc_vector x = vp_add(vp_mul(1 - s, vat(L, c, ev[a])), vp_mul(s, vat(L, c, ev[a] + 1))), y = vp_add(vp_mul(1 - t, vat(L, d, ev[b])), vp_mul(t, vat(L, d, ev[b] + 1)));
    if (w < 1e-6 * size) odd = 1; /* the curve nearly meets itself */
    int m1 = localmin(L, c, ev[a], s, y), m2 = localmin(L, d, ev[b], t, x), m = m1 < m2 ? m1 : m2;
    if (par && m) m = 1;
    if (par && !m) m = 1;
    /* a vertex belongs to the edge it starts (the last one of an open component to the edge it ends) */
    if (m && s > 1 - 1e-7 && !(L->cp[c].open && ev[a] == n - 2)) m = s < 1 ? 1 : 0;
    if (m && t > 1 - 1e-7 && !(L->cp[d].open && ev[b] == L->cp[d].nv - 2)) m = t < 1 ? 1 : 0;
    if (m) { st[ns].a = a; st[ns].b = b; st[ns].sure = m == 2; st[ns++].d = w; lo = fmin(lo, w); if (m == 2) hi = fmin(hi, w); }
  }
  if (odd) { vp_drop(&sn); vp_free(L); return; }
  double mr = DBL_MAX, mrall = 0;
  for (int i = 0; i < L->nc; i++) for (int j = L->cp[i].open ? 1 : 0; j < (L->cp[i].open ? L->cp[i].nv - 1 : L->cp[i].nv); j++) for (int k = -1; k < 2; k += 2) { double m = mr_at(L, i, j, k); mr = fmin(mr, m); if (m < DBL_MAX) mrall = fmax(mrall, m); }
  int useown = vh_int(0, 2) == 0, lev = vh_int(0, 1) ? 0 : vh_int(0, 1) ? vh_int(1, 3) : vh_int(1, 6), msz = 0; void *mem = NULL;
  vh_add("own memory %d, levels %d", useown, lev);
  vh_go(ns > 1);
  long live = vh_live;
  octrope_set_levels(lev);
  if (useown) { msz = octrope_est_mem(nE); mem = malloc(msz); memset(mem, 0x5a, msz); }
  double sh = octrope_poca(L, mem, msz);
  CHECK(octrope_error_num == 0, "error %d %s", octrope_error_num, octrope_error_str);
  CHECK(sh >= lo * (1 - 1e-6) && sh <= hi * (1 + 1e-6), "shortest strut %.17g, expected between %.17g and %.17g", sh, lo, hi);
  CHECK(near(octrope_curvelength(L), len), "length %.17g, expected %.17g", octrope_curvelength(L), len);
  vh_set_fn("octrope_minrad");
  double m = octrope_minradval(L);
  CHECK(near(m, mr) || (mr > 1e5 * size && m > 1e5 * size), "least radius %.17g, expected %.17g", m, mr);
  /* lists */
  int room = vh_int(0, 2) ? nE * nE / 2 + 1 : vh_int(1, 4), cut = vh_int(0, 1);
  double eps = cut ? vh_real(0, 1) * size : vh_real(0, 0.5) * size, cutoff = cut ? (hi < DBL_MAX ? hi * vh_real(0.7, 3) : size) : 0;
  octrope_strut *sl = calloc(room, sizeof *sl);
  vh_add(" strut cutoff %.17g epsilon %.17g room %d", cutoff, eps, room);
  vh_set_fn("octrope_struts");
  double sh2 = -1;
  int k = octrope_struts(L, cutoff, eps, sl, room, &sh2, mem, msz);
  double up = cut ? cutoff : sh + eps; int low = 0, top = 0;
  for (int i = 0; i < ns; i++) { if (st[i].sure && st[i].d < up * (1 - 1e-6)) low++; if (st[i].d <= up * (1 + 1e-6)) top++; }
  CHECK(k <= room && k <= top && k >= (room >= ns ? low : low > 0), "%d struts listed, expected %d to %d, room for %d", k, low, top, room);
  if (!cut) CHECK(sh2 == sh, "shortest strut %.17g, before %.17g", sh2, sh);
  for (int i = 0; i < k; i++) {
    octrope_strut *q = &sl[i]; plc_vector e[2]; int f = 0;
    CHECK(q->length <= up * (1 + 1e-9), "strut %d is longer than %.17g", i, up);
    octrope_strut_ends(L, q, e);
    CHECK(near(vp_dist(e[0], e[1]), q->length), "ends of strut %d", i);
    for (int z = 0; z < ns; z++) for (int w = 0; w < 2; w++) { int a = w ? st[z].b : st[z].a, b = w ? st[z].a : st[z].b; if (ec[a] == q->component[0] && ev[a] == q->lead_vert[0] && ec[b] == q->component[1] && ev[b] == q->lead_vert[1]) { f = 1; CHECK(near(q->length, st[z].d), "strut %d has length %.17g, its edges have distance %.17g", i, q->length, st[z].d); } }
    CHECK(f, "strut %d (%d:%d-%d:%d) is not a closest pair", i, q->component[0], q->lead_vert[0], q->component[1], q->lead_vert[1]);
    for (int z = 0; z < i; z++) CHECK(memcmp(sl[z].component, q->component, sizeof q->component) || memcmp(sl[z].lead_vert, q->lead_vert, sizeof q->lead_vert), "struts %d and %d are the same", z, i);
  }
  vh_set_fn("octrope_minrad");
  int mroom = vh_int(0, 2) ? 2 * nE + 2 : vh_int(1, 3), nm = -1, mcut = vh_int(0, 1);
  double meps = vh_real(0, 1) * size, mc = mcut ? (mr < DBL_MAX ? mr * vh_real(0.7, 4) : 1) : 0;
  octrope_mrloc *ml = calloc(mroom, sizeof *ml);
  vh_add(" radius cutoff %.17g epsilon %.17g room %d", mc, meps, mroom);
  double m2 = octrope_minrad(L, mc, meps, ml, mroom, &nm);
  CHECK(m2 == m, "least radius differs");
  up = mcut ? mc : m + meps; low = top = 0;
  for (int i = 0; i < L->nc; i++) for (int j = L->cp[i].open ? 1 : 0; j < (L->cp[i].open ? L->cp[i].nv - 1 : L->cp[i].nv); j++) for (int z = -1; z < 2; z += 2) { double w = mr_at(L, i, j, z); if (w < up * (1 - 1e-5)) low++; if (w <= up * (1 + 1e-5)) top++; }
  CHECK(nm <= mroom && nm <= top && nm >= (mroom >= 2 * nE ? low : low > 0), "%d places listed, expected %d to %d, room for %d", nm, low, top, mroom);
  for (int i = 0; i < nm; i++) {
    octrope_mrloc *q = &ml[i];
    CHECK(abs(q->svert - q->vert) == 1, "place %d: vertices %d and %d", i, q->vert, q->svert);
    double w = mr_at(L, q->component, q->vert, q->svert - q->vert);
    CHECK((near(w, q->mr) || w > 1e4 * size) && q->mr <= up * (1 + 1e-9), "place %d: radius %.17g, expected %.17g, limit %.17g", i, q->mr, w, up);
    for (int z = 0; z < i; z++) CHECK(ml[z].component != q->component || ml[z].vert != q->vert || ml[z].svert != q->svert, "place %d twice", i);
  }
  /* all together */
  vh_set_fn("octrope");
  double lam = vh_int(0, 2) ? vh_real(0, 3) : vh_int(0, 1), rl, th, cl, mm, ms; int n1, n2;
  vh_add(" lambda %.17g", lam);
  octrope(L, &rl, &th, &cl, &mm, &ms, mc, meps, ml, mroom, &n1, cutoff, eps, sl, room, &n2, mem, msz, lam);
  CHECK(octrope_error_num == 0, "error %d", octrope_error_num);
  double wt = lam > 0 ? fmin(sh / 2, m / lam) : sh / 2;
  CHECK(near(th, wt), "thickness %.17g, expected %.17g", th, wt);
  CHECK(near(cl, len) && near(rl, len / wt), "length %.17g ropelength %.17g, expected %.17g %.17g", cl, rl, len, len / wt);
  CHECK(n2 == k, "%d struts, before %d", n2, k);
  if (lam > 0) CHECK(mm == m && n1 == nm, "least radius %.17g at %d places, before %.17g at %d", mm, n1, m, nm); else CHECK(n1 == 0 && mm == DBL_MAX, "places recorded without stiffness");
  if (!cut) CHECK(ms == sh, "shortest strut %.17g, before %.17g", ms, sh);
  CHECK(near(octrope_thickness(L, mem, msz, lam), wt), "octrope_thickness");
  CHECK(near(octrope_ropelength(L, mem, msz, lam), len / wt), "octrope_ropelength");
  free(sl); free(ml); free(mem);
  octrope_set_levels(0);
  CHECK(vh_live == live, "%ld blocks left", vh_live - live);
  const char *d = vp_diff(L, &sn, 63); CHECK(!d, "the curve changed: %s", d);
  vp_drop(&sn); vp_free(L);
}
/* lists of struts and places in a file */
static void file(void) {
  plCurve *L = mk();
  int ns = vh_int(0, 5), nm = vh_int(0, 5);
  octrope_strut *a = calloc(ns + 1, sizeof *a), *b = NULL; octrope_mrloc *m = calloc(nm + 1, sizeof *m), *w = NULL;
  double f = pow(10, vh_real(-3, 3));
  for (int i = 0; i < ns; i++) { for (int k = 0; k < 2; k++) { a[i].component[k] = vh_int(0, L->nc - 1); a[i].lead_vert[k] = vh_int(0, L->cp[a[i].component[k]].nv - 1); a[i].position[k] = vh_int(0, 3) ? vh_real(0, 1) : vh_int(0, 1); } a[i].length = f * vh_real(0, 2); a[i].compression = vh_int(0, 1) * f * vh_real(-1, 1); }
  for (int i = 0; i < nm; i++) { m[i].component = vh_int(0, L->nc - 1); m[i].vert = vh_int(0, L->cp[m[i].component].nv - 1); m[i].mr = f * vh_real(0, 1); m[i].compression = vh_int(0, 1) * f * vh_real(-1, 1); }
  int what = vh_int(0, 5), bad = -1;
  if (what == 1 && ns) { bad = vh_int(0, ns - 1); int k = vh_int(0, 1); if (vh_int(0, 1)) a[bad].component[k] = vh_int(0, 1) ? -vh_int(1, 3) : L->nc + vh_int(0, 3); else a[bad].lead_vert[k] = vh_int(0, 1) ? -vh_int(1, 3) : L->cp[a[bad].component[k]].nv + vh_int(0, 3); }
  else if (what == 2 && nm) { bad = vh_int(0, nm - 1); if (vh_int(0, 1)) m[bad].component = vh_int(0, 1) ? -vh_int(1, 3) : L->nc + vh_int(0, 3); else m[bad].vert = vh_int(0, 1) ? -vh_int(1, 3) : L->cp[m[bad].component].nv + vh_int(0, 3); }
  static char buf[8192]; memset(buf, 0, sizeof buf);
  FILE *o = fmemopen(buf, sizeof buf, "w");
  vh_case("octrope_strutfile_write"); vp_desc(L);
  for (int i = 0; i < ns; i++) vh_add(" strut %d:%d-%d:%d at %.17g %.17g length %.17g compression %.17g", a[i].component[0], a[i].lead_vert[0], a[i].component[1], a[i].lead_vert[1], a[i].position[0], a[i].position[1], a[i].length, a[i].compression);
  for (int i = 0; i < nm; i++) vh_add(" place %d:%d radius %.17g compression %.17g", m[i].component, m[i].vert, m[i].mr, m[i].compression);
  vh_go(ns + nm > 0);
  octrope_strutfile_write(ns, a, nm, m, o);
  CHECK(octrope_error_num == 0, "error %d", octrope_error_num);
  fclose(o);
  int len = strlen(buf), cut = len;
  if (what == 3) { /* the file ends before its last number starts */ int e = len; while (e > 0 && isspace((unsigned char)buf[e - 1])) e--; while (e > 0 && !isspace((unsigned char)buf[e - 1])) e--; cut = vh_int(0, e); buf[cut] = 0; vh_add(" cut after %d of %d", cut, len); }
  if (what == 4) { /* comments and blank lines between the records */ static char c[8192]; int z = 0; for (int i = 0; i < len; i++) { c[z++] = buf[i]; if (buf[i] == '\n' && i > 8 && vh_int(0, 1)) z += sprintf(c + z, "  # 12 note\n\n"); } c[z] = 0; memcpy(buf, c, z + 1); vh_add(" with comments"); }
  vh_set_fn("octrope_strutfile_read");
  int n1 = -1, n2 = -1;
  FILE *in = tmpfile(); fwrite(buf, 1, strlen(buf), in); rewind(in);
  octrope_strutfile_read(L, &n1, &b, &n2, &w, in);
  fclose(in);
  if (bad >= 0 || what == 3) CHECK(octrope_error_num != 0, "%s accepted", what == 3 ? "a file that ends early is" : "a record that does not fit the curve is");
  else {
    CHECK(octrope_error_num == 0, "error %d %s", octrope_error_num, octrope_error_str);
    CHECK(n1 == ns && n2 == nm, "%d struts and %d places read, expected %d and %d", n1, n2, ns, nm);
    for (int i = 0; i < ns; i++) for (int k = 0; k < 2; k++) CHECK(b[i].component[k] == a[i].component[k] && b[i].lead_vert[k] == a[i].lead_vert[k] && digits(b[i].position[k], a[i].position[k]) && digits(b[i].length, a[i].length) && digits(b[i].compression, a[i].compression), "strut %d is read back as %d:%d-%d:%d at %.17g %.17g length %.17g compression %.17g", i, b[i].component[0], b[i].lead_vert[0], b[i].component[1], b[i].lead_vert[1], b[i].position[0], b[i].position[1], b[i].length, b[i].compression);
    for (int i = 0; i < nm; i++) CHECK(w[i].component == m[i].component && w[i].vert == m[i].vert && digits(w[i].mr, m[i].mr) && digits(w[i].compression, m[i].compression), "place %d is read back as %d:%d radius %.17g compression %.17g", i, w[i].component, w[i].vert, w[i].mr, w[i].compression);
  }
  free(a); free(b); free(m); free(w); vp_free(L);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { one(); if (vh_int(0, 3) == 0) file(); }
  return vh_done();
}
