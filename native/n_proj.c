/* Executable contracts: from a closed curve to a diagram and its invariants. */
#include <gsl/gsl_rng.h>
#include <plcTopology.h>
#include <octrope.h>
#include "vp.h"
void set_pd_code_from_plCurve_debug(bool val);
static gsl_rng *R; static long nbig, ndeg, nulls, compared, knotted;
static plc_vector cross3(plc_vector i, plc_vector o) { plc_vector z = {{i.c[1] * o.c[2] - i.c[2] * o.c[1], i.c[2] * o.c[0] - i.c[0] * o.c[2], i.c[0] * o.c[1] - i.c[1] * o.c[0]}}; return z; }
static plc_vector nx(plCurve *L, int c, int v) { return L->cp[c].vt[v % L->cp[c].nv]; }
static int bad, over2; static double cs, ct; /* place of the last crossing on the two segments */ /* a configuration close to degenerate was met */
/* sign of the crossing of two segments seen along d, 0 if there is none */
static int crosssign(plc_vector a, plc_vector b, plc_vector c, plc_vector e, plc_vector d) {
  plc_vector u = vp_sub(b, a), v = vp_sub(e, c), w = vp_sub(c, a);
  double D = vp_dot(cross3(u, v), d), s = vp_dot(cross3(w, v), d), t = vp_dot(cross3(w, u), d);
  double sc = vp_len(u) * vp_len(v);
  if (fabs(D) < 1e-6 * sc) { bad = 1; return 0; }
  s /= D; t /= D;
  if (s < -1e-6 || s > 1 + 1e-6 || t < -1e-6 || t > 1 + 1e-6) return 0;
  if (s < 1e-6 || s > 1 - 1e-6 || t < 1e-6 || t > 1 - 1e-6) { bad = 1; return 0; }
  double h = vp_dot(vp_sub(vp_add(c, vp_mul(t, v)), vp_add(a, vp_mul(s, u))), d); /* second above first if positive */
  if (fabs(h) < 1e-5) { bad = 1; return 0; }
  cs = s; ct = t; over2 = h > 0;
  return (h > 0 ? -1 : 1) * (D > 0 ? 1 : -1);
}
static int twice_linking(plCurve *L, int p, int q, plc_vector d) { int t = 0; for (int i = 0; i < L->cp[p].nv; i++) for (int j = 0; j < L->cp[q].nv; j++) t += crosssign(nx(L, p, i), nx(L, p, i + 1), nx(L, q, j), nx(L, q, j + 1), d); return t; }
static plc_vector dir(void) { for (;;) { plc_vector d = {{vh_real(-1, 1), vh_real(-1, 1), vh_real(-1, 1)}}; double l = vp_len(d); if (l > .1 && l < 1) return vp_mul(1 / l, d); } }

/* --- the one-variable Alexander polynomial at t modulo a prime, from Wirtinger relations --- */
#define PR 1000000007LL
#define MX 400
#define MC 6000
typedef struct { int over, uin, uout, sign; } rel;
static long long pw(long long b, long long e) { long long r = 1; b %= PR; if (b < 0) b += PR; for (; e; e >>= 1, b = b * b % PR) if (e & 1) r = r * b % PR; return r; }
static long long alex(rel *r, int n, int narcs, long long t) {
  /* n relations among narcs arcs; the determinant of the matrix without last row and column (one arc per crossing) */
  if (n < 2) return 1;
  if (narcs != n) return -1;
  static long long m[MX][MX];
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) m[i][j] = 0;
    m[i][r[i].over] += 1 - t;
    int a = r[i].sign > 0 ? r[i].uin : r[i].uout, b = r[i].sign > 0 ? r[i].uout : r[i].uin;
    m[i][a] += t; m[i][b] -= 1;
  }
  long long d = 1; int k = n - 1;
  for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) m[i][j] = ((m[i][j] % PR) + PR) % PR;
  for (int i = 0; i < k; i++) {
    int p = i; while (p < k && !m[p][i]) p++;
    if (p == k) return 0;
    if (p != i) { d = PR - d; for (int j = 0; j < k; j++) { long long x = m[p][j]; m[p][j] = m[i][j]; m[i][j] = x; } }
    d = d * m[i][i] % PR; long long iv = pw(m[i][i], PR - 2);
    for (int q = i + 1; q < k; q++) if (m[q][i]) { long long f = m[q][i] * iv % PR; for (int j = i; j < k; j++) m[q][j] = (m[q][j] + (PR - f) * m[i][j]) % PR; }
  }
  return d % PR;
}
static int unit_equal(long long x, long long y, long long t, int span) {
  long long it = pw(t, PR - 2), f = 1, g = 1;
  for (int k = 0; k <= span; k++) {
    if (x == y * f % PR || x == (PR - y * f % PR) % PR || x == y * g % PR || x == (PR - y * g % PR) % PR) return 1;
    f = f * t % PR; g = g * it % PR;
  }
  return 0;
}
typedef struct { double pos; int c, cr, over; } evt;
static int ecmp(const void *a, const void *b) { const evt *x = a, *y = b; if (x->c != y->c) return x->c - y->c; return (x->pos > y->pos) - (x->pos < y->pos); }
/* the diagram seen along d; returns the number of crossings, or -1 if a component has none or passes under nowhere or too many */
static int ncr; /* crossings seen by geom */
static int geom(plCurve *L, plc_vector d, rel *r, int *narcs, int writhe[8][8]) {
  static evt e[2 * MC]; int n = 0;
  for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) writhe[i][j] = 0;
  for (int i = 0; i < L->nc; i++) for (int j = 0; j <= i; j++) for (int a = 0; a < L->cp[i].nv; a++) for (int b = 0; b < (i == j ? a - 1 : L->cp[j].nv); b++) {
    int m = L->cp[i].nv; if (i == j && a - b > m - 2) continue;
    int sg = crosssign(nx(L, i, a), nx(L, i, a + 1), nx(L, j, b), nx(L, j, b + 1), d);
    if (!sg) continue;
    if (n == MC) return -1;
    r[n].sign = sg; writhe[i][j] += sg;
    e[2 * n] = (evt){a + cs, i, n, !over2}; e[2 * n + 1] = (evt){b + ct, j, n, over2}; n++;
  }
  ncr = n; qsort(e, (size_t)(2 * n), sizeof *e, ecmp);
  int arc = 0, start = 0;
  for (int c = 0; c < L->nc; c++) {
    int end = start; while (end < 2 * n && e[end].c == c) end++;
    int under = 0; for (int k = start; k < end; k++) under += !e[k].over;
    if (!under) { if (L->nc == 1) { *narcs = 0; return 0; } return -1; }
    int first = arc, cur = arc, left = under;
    for (int k = start; k < end; k++) if (e[k].over) r[e[k].cr].over = cur; else { r[e[k].cr].uin = cur; left--; cur = left ? cur + 1 : first; r[e[k].cr].uout = cur; }
    arc += under; start = end;
  }
  *narcs = arc; return n;
}
static int fnd(int *u, int x) { while (u[x] != x) x = u[x] = u[u[x]]; return x; }
/* the same from a diagram record; -1 if some component passes under nowhere */
static int frompd(pd_code_t *pd, rel *r, int *narcs) {
  static int u[2 * MX], id[2 * MX]; int n = (int)pd->ncross, e = (int)pd->nedges;
  if (n > MX || e > 2 * MX) return -1;
  for (int i = 0; i < e; i++) { u[i] = i; id[i] = -1; }
  static pd_idx_t oi[MX], oo[MX], ui[MX], uo[MX]; static int isend[2 * MX];
  for (int i = 0; i < n; i++) {
    /* edge 0,1,2,3 counterclockwise; the strand 0-2 is over in a positive crossing iff ... : read it from heads and the sign */
    pd_crossing_t *c = &pd->cross[i]; int in[2], q = 0;
    for (int k = 0; k < 4; k++) if (pd->edge[c->edge[k]].head == (pd_idx_t)i && pd->edge[c->edge[k]].headpos == k) { if (q < 2) in[q] = k; q++; }
    if (q != 2) return -1;
    int x = in[0], y = in[1]; if ((y - x + 4) % 4 == 3) { int z = x; x = y; y = z; } /* y follows x counterclockwise */
    if ((y - x + 4) % 4 != 1) return -1;
    /* seen from above with x coming from the south, y comes from the east and goes west: x over y is a positive crossing */
    int ov = c->sign == PD_POS_ORIENTATION ? x : y, un = c->sign == PD_POS_ORIENTATION ? y : x;
    oi[i] = c->edge[ov]; oo[i] = c->edge[(ov + 2) % 4]; ui[i] = c->edge[un]; uo[i] = c->edge[(un + 2) % 4];
    r[i].sign = c->sign == PD_POS_ORIENTATION ? 1 : -1;
    u[fnd(u, (int)oi[i])] = fnd(u, (int)oo[i]);
  }
  for (int i = 0; i < e; i++) isend[i] = 0;
  for (int i = 0; i < n; i++) isend[fnd(u, (int)uo[i])] = 1;
  int a = 0;
  for (int i = 0; i < e; i++) if (fnd(u, i) == i && n) { if (!isend[i]) { if (pd->ncomps == 1) { *narcs = 0; return 0; } return -1; } id[i] = a++; }
  for (int i = 0; i < n; i++) { r[i].over = id[fnd(u, (int)oi[i])]; r[i].uin = id[fnd(u, (int)ui[i])]; r[i].uout = id[fnd(u, (int)uo[i])]; }
  *narcs = a; return n;
}
static int icmp(const void *a, const void *b) { return *(int *)a - *(int *)b; }
static void one(void) {
  plCurve *L; int links = vh_int(0, 1), big = vh_int(0, 1999) == 0; if (big) links = 0;
  for (;;) { L = vp_rand(links ? 3 : 1, big ? vh_int(80, 150) : vh_int(0, 1) ? vh_int(3, 9) : vh_int(8, links ? 12 : 20), VP_NOCST | VP_NOCLR | VP_CLOSED); int b = 0; for (int i = 0; i < L->nc; i++) if (L->cp[i].nv < 3) b = 1; if (!b) break; vp_free(L); }
  int deg = !big && vh_int(0, 3) == 0; /* integer coordinates: the projection along z is usually not generic */
  if (deg) for (int i = 0; i < L->nc; i++) for (int v = 0; v < L->cp[i].nv; v++) for (int k = 0; k < 3; k++) L->cp[i].vt[v].c[k] = floor(L->cp[i].vt[v].c[k] * (k < 2 ? .8 : 2));
  vp_wrap(L);
  static rel gr[MC], pr[MX]; int ga, pa, w[8][8];
  bad = 0; plc_vector d = dir(); int along = big || vh_int(0, 2) == 0; if (along && !deg) { d = (plc_vector){{0, 0, 1}}; }
  int gn = geom(L, d, gr, &ga, w), lk[8], nl = 0, linked[8] = {0};
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < i; j++) { lk[nl] = w[i][j] / 2; if (lk[nl++]) linked[i] = linked[j] = 1; }
  int skip = bad || gn < 0;
  if (L->nc > 1) for (int i = 0; i < L->nc; i++) if (!linked[i]) skip = 1; /* such curves may have split projections, which are not handled */
  if (L->nc > 3) skip = 1;
  if (!skip && deg) { int dup = 0; for (int i = 0; i < L->nc; i++) for (int v = 0; v < L->cp[i].nv; v++) if (vp_len(vp_sub(nx(L, i, v), nx(L, i, v + 1))) < .5) dup = 1; if (dup || octrope_thickness(L, NULL, 0, 0) < .2) skip = 1; }
  if (skip) { vp_free(L); return; }
  vp_snap sn; vp_take(L, &sn);
  unsigned long seed = (unsigned long)vh_int(1, 1000000000);
  vh_case("pd_code_from_plCurve"); vp_desc(L); vh_add("generator seed %lu%s", seed, along ? ", projection along z" : ""); vh_go(1);
  if (deg && along) ndeg++;
  long live = vh_live;
  gsl_rng_set(R, seed);
  set_pd_code_from_plCurve_debug(along); /* keeps the direction of projection */
  pd_code_t *pd = pd_code_from_plCurve(R, L);
  set_pd_code_from_plCurve_debug(false);
  if (!pd) { nulls++; CHECK(deg, "no diagram"); const char *e = vp_diff(L, &sn, 63); CHECK(!e, "the curve changed: %s", e); vp_drop(&sn); vp_free(L); return; }
  CHECK(pd_ok(pd), "invalid diagram");
  CHECK((int)pd->ncomps == L->nc, "%d components, expected %d", (int)pd->ncomps, L->nc);
  if (along && !deg && ncr > 0) {
    int a = 0, b = 0; for (int i = 0; i < L->nc; i++) for (int j = 0; j <= i; j++) a += w[i][j];
    for (int i = 0; i < (int)pd->ncross; i++) b += pd->cross[i].sign == PD_POS_ORIENTATION ? 1 : -1;
    CHECK((int)pd->ncross == ncr, "%d crossings, expected %d", (int)pd->ncross, ncr);
    CHECK(a == b, "signs of the crossings add up to %d, expected %d", b, a);
  }
  int dk[8], nd = 0;
  for (int i = 0; i < L->nc; i++) for (int j = 0; j < i; j++) dk[nd++] = pd_linking_number(pd, (pd_idx_t)i, (pd_idx_t)j);
  qsort(lk, (size_t)nl, sizeof *lk, icmp); qsort(dk, (size_t)nd, sizeof *dk, icmp);
  for (int i = 0; i < nl; i++) CHECK(lk[i] == dk[i], "linking numbers %d %d %d, expected %d %d %d", dk[0], nd > 1 ? dk[1] : 0, nd > 1 ? dk[2] : 0, lk[0], nd > 1 ? lk[1] : 0, nd > 1 ? lk[2] : 0);
  if (big && ncr > 1024) nbig++;
  int pn = big ? -1 : frompd(pd, pr, &pa);
  if (pn >= 0) {
    compared++;
    for (long long t = 2; t < 6; t++) {
      long long x = alex(pr, pn, pa, t), y = alex(gr, gn, ga, t);
      if (pa == 0 && pn == 0) x = 1; 
      if (y != 1 && gn) knotted++;
      CHECK(unit_equal(x, y, t, 2 * MX), "Alexander polynomial at %lld is %lld (mod %lld, up to units), expected %lld: another knot or link", t, x, PR, y);
    }
  }
  pd_code_free(&pd);
  CHECK(vh_live == live, "%ld blocks left", vh_live - live);
  const char *e = vp_diff(L, &sn, 63); CHECK(!e, "the curve changed: %s", e);
  vp_drop(&sn); vp_free(L);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  R = gsl_rng_alloc(gsl_rng_mt19937);
  while (vh_frac() < 1) one();
  gsl_rng_free(R);
  if (getenv("VP_STAT")) fprintf(stderr, "big %ld deg %ld nulls %ld compared %ld knotted %ld\n", nbig, ndeg, nulls, compared, knotted);
  return vh_done();
}
