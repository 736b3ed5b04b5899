/* Executable contracts: the group-valued iterators and tuples of them. */
#include "vh.h"
#include "plcTopology.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_dihedral.h"
#include "pd_cyclic.h"
#include "pd_orientation.h"
#define PD_MAX_PC_PERM 6 /* permutations of up to this many elements carry an index into a table */
typedef unsigned int u32;
enum { CYC, DIH, ORI, PERM };
static const char *KN[] = {"cyclic", "dihedral", "orientation", "perm"};
static pd_iterops_t *OPS[] = {&cyclic_ops, &dihedral_ops, &orientation_ops, &perm_ops};
static u32 *mapof(int k, void *o) { return k == CYC ? ((pd_cyclic_t *)o)->map : k == DIH ? ((pd_dihedral_t *)o)->map : k == PERM ? ((pd_perm_t *)o)->map : NULL; }
static u32 nof(int k, void *o) { return k == CYC ? ((pd_cyclic_t *)o)->n : k == DIH ? ((pd_dihedral_t *)o)->n : k == PERM ? ((pd_perm_t *)o)->n : 0; }
static int orof(int k, void *o) { return k == DIH ? ((pd_dihedral_t *)o)->orient : k == ORI ? ((pd_orientation_t *)o)->orient : -1; }
static void desc(int k, void *o) {
  vh_add("%s[", KN[k]);
  for (u32 i = 0; i < nof(k, o); i++) vh_add("%u ", mapof(k, o)[i]);
  vh_add("]%d", orof(k, o));
}
static u32 fact(u32 n) { u32 r = 1; while (n > 1) r *= n--; return r; }
static u32 want_n(int k, u32 n) { return k == CYC ? n : k == DIH ? 2 * n : k == ORI ? 2 : fact(n); }
/* the value with index s in the enumeration that starts at the identity */
static void value(int k, u32 n, u32 s, u32 *map, int *orient) {
  if (k == CYC) for (u32 i = 0; i < n; i++) map[i] = (i + s) % n;
  else if (k == DIH) { *orient = s < n ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION; u32 t = s % n; for (u32 i = 0; i < n; i++) map[i] = s < n ? (i + s) % n : (2 * n - t - i) % n; }
  else if (k == ORI) *orient = s ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION;
  else { /* s-th permutation in lexicographic order */
    u32 used[16] = {0};
    for (u32 i = 0; i < n; i++) { u32 f = fact(n - 1 - i), d = s / f; s %= f; u32 j = 0; for (;; j++) if (!used[j]) { if (!d) break; d--; } used[j] = 1; map[i] = j; }
  }
}
static int is_value(int k, u32 n, void *o, u32 s) {
  u32 m[64]; int orr = -1;
  value(k, n, s, m, &orr);
  if (k != ORI) { if (nof(k, o) != n) return 0; for (u32 i = 0; i < n; i++) if (mapof(k, o)[i] != m[i]) return 0; }
  if (k == DIH || k == ORI) if (orof(k, o) != orr) return 0;
  if (k == PERM) { u32 pc = n <= PD_MAX_PC_PERM ? s : 0; if (((pd_perm_t *)o)->pc_idx != pc) return 0; }
  return 1;
}
static void *mk(int k, u32 n) { return OPS[k]->new(k == ORI ? NULL : (void *)&n); }
static void t_walk(int k, u32 n) {
  char fn[64];
  vh_case("x"); snprintf(fn, 64, "pd_new_%s", KN[k]); vh_set_fn(fn); vh_add("%s over %u, the whole enumeration", KN[k], n); vh_go(1);
  long l0 = vh_live;
  void *o = mk(k, n);
  CHECK(is_value(k, n, o, 0), "does not start at the identity");
  u32 N = want_n(k, n);
  snprintf(fn, 64, "pd_n%ss", KN[k]); vh_set_fn(fn);
  CHECK(OPS[k]->nvals(o) == N, "%u values, expected %u", OPS[k]->nvals(o), N);
  for (u32 s = 0; s < N; s++) {
    if (N < 2000 || s % 97 == 0) {
      snprintf(fn, 64, "pd_%s_ok", KN[k]); vh_set_fn(fn);
      CHECK(OPS[k]->ok(o), "value %u rejected", s);
    }
    snprintf(fn, 64, "pd_increment_%s", KN[k]); vh_set_fn(fn);
    OPS[k]->incr(o);
    CHECK(is_value(k, n, o, (s + 1) % N), "after %u advances", s + 1);
  }
  snprintf(fn, 64, "pd_free_%s", KN[k]); vh_set_fn(fn);
  OPS[k]->free(&o);
  CHECK(!o && vh_live == l0, "pointer %p, %ld blocks left", o, vh_live - l0);
  OPS[k]->free(&o);
}
static void shuffle(u32 *m, u32 n) { for (u32 i = 0; i < n; i++) m[i] = i; for (u32 i = n; i > 1; i--) { u32 j = vh_int(0, i - 1), t = m[i - 1]; m[i - 1] = m[j]; m[j] = t; } }
static void *rnd(int k, u32 n) { /* a random element of the group */
  void *o = mk(k, n);
  if (k == PERM) { shuffle(mapof(k, o), n); if (n <= PD_MAX_PC_PERM) { pd_perm_t *p = o; u32 N = fact(n), m[16]; int d; for (u32 s = 0; s < N; s++) { value(PERM, n, s, m, &d); if (!memcmp(m, p->map, n * sizeof(u32))) p->pc_idx = s; } } }
  else { int orr = 1; u32 s = vh_int(0, want_n(k, n) - 1); u32 m[64]; value(k, n, s, m, &orr); if (k != ORI) memcpy(mapof(k, o), m, n * sizeof(u32)); if (k == DIH) ((pd_dihedral_t *)o)->orient = orr; if (k == ORI) ((pd_orientation_t *)o)->orient = orr; }
  return o;
}
static int ref_cmp(int k, void *a, void *b) { /* sign of the documented order: positive orientation first, then lexicographic */
  if (k == DIH || k == ORI) if (orof(k, a) != orof(k, b)) return orof(k, a) == PD_POS_ORIENTATION ? -1 : 1;
  for (u32 i = 0; i < nof(k, a); i++) if (mapof(k, a)[i] != mapof(k, b)[i]) return mapof(k, a)[i] < mapof(k, b)[i] ? -1 : 1;
  return 0;
}
static int sg(int x) { return (x > 0) - (x < 0); }
static u32 rn(int k) { return k == ORI ? 1 : vh_int(0, 3) ? vh_int(1, 7) : vh_int(1, k == PERM ? 13 : 40); }
static void t_copy(int k) {
  char fn[64];
  u32 n = rn(k);
  vh_case("x"); snprintf(fn, 64, "pd_copy_%s", KN[k]); vh_set_fn(fn);
  void *a = rnd(k, n); desc(k, a); vh_go(1);
  long l0 = vh_live;
  void *b = OPS[k]->copy(a);
  CHECK(b != a && (k == ORI || mapof(k, b) != mapof(k, a)), "shared storage");
  CHECK(nof(k, a) == nof(k, b) && !ref_cmp(k, a, b) && (k != PERM || ((pd_perm_t *)a)->pc_idx == ((pd_perm_t *)b)->pc_idx), "the copy differs");
  void *c = OPS[k]->copy(b);
  OPS[k]->incr(b);
  CHECK(!ref_cmp(k, a, c), "advancing the copy changed the original");
  vh_set_fn("pd_*_cmp");
  void *d = rnd(k, n);
  vh_add(" and "); desc(k, d);
  CHECK(sg(OPS[k]->cmp(&a, &d)) == ref_cmp(k, a, d) && sg(OPS[k]->cmp(&d, &a)) == ref_cmp(k, d, a), "comparison gives %d", OPS[k]->cmp(&a, &d));
  CHECK(OPS[k]->cmp(&a, &c) == 0, "comparison of equal values");
  OPS[k]->free(&b); OPS[k]->free(&c); OPS[k]->free(&d);
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
  OPS[k]->free(&a);
}
static int ref_ok(int k, void *o) {
  u32 n = nof(k, o), *m = mapof(k, o);
  if (k == ORI) return orof(k, o) == 0 || orof(k, o) == 1;
  for (u32 i = 0; i < n; i++) { if (m[i] >= n) return 0; for (u32 j = 0; j < i; j++) if (m[i] == m[j]) return 0; }
  if (k == CYC) { for (u32 i = 0; i < n; i++) if (m[i] != (m[0] + i) % n) return 0; }
  if (k == DIH) { if (orof(k, o) != 0 && orof(k, o) != 1) return 0; for (u32 i = 0; i < n; i++) if (m[i] != (orof(k, o) == PD_POS_ORIENTATION ? (m[0] + i) % n : (m[0] + n - i) % n)) return 0; }
  if (k == PERM) { pd_perm_t *p = o; if (n <= PD_MAX_PC_PERM) { u32 w[16]; int d; if (p->pc_idx >= fact(n)) return 0; value(PERM, n, p->pc_idx, w, &d); if (memcmp(w, m, n * sizeof(u32))) return 0; } }
  return 1;
}
static void t_ok(int k) {
  char fn[64];
  u32 n = rn(k);
  void *o = rnd(k, n);
  int w = (int)vh_int(0, 4);
  if (k != ORI) {
    u32 *m = mapof(k, o);
    if (w == 0) m[vh_int(0, n - 1)] = vh_int(0, n);
    if (w == 1) { u32 i = vh_int(0, n - 1), j = vh_int(0, n - 1), t = m[i]; m[i] = m[j]; m[j] = t; }
    if (w == 2) shuffle(m, n);
  }
  if (w == 3 && k == DIH) ((pd_dihedral_t *)o)->orient = vh_int(0, 3);
  if (w == 3 && k == ORI) ((pd_orientation_t *)o)->orient = vh_int(0, 3);
  if (w == 3 && k == PERM) ((pd_perm_t *)o)->pc_idx = vh_int(0, 1) ? (n <= PD_MAX_PC_PERM ? fact(n) : 0) : vh_int(0, 900);
  vh_case("x"); snprintf(fn, 64, "pd_%s_ok", KN[k]); vh_set_fn(fn); desc(k, o); if (k == PERM) vh_add(" index %u", ((pd_perm_t *)o)->pc_idx); vh_go(1);
  CHECK(OPS[k]->ok(o) == ref_ok(k, o), "%s a value that is %sa group element", OPS[k]->ok(o) ? "accepts" : "rejects", ref_ok(k, o) ? "" : "not ");
  OPS[k]->free(&o);
}
static void t_next(void) { /* one advance of a long permutation */
  u32 n = vh_int(1, 14), m[16];
  pd_perm_t *p = rnd(PERM, n);
  if (vh_int(0, 3) == 0) for (u32 i = vh_int(0, n - 1); i + 1 < n; i++) for (u32 j = i + 1; j < n; j++) if (p->map[i] < p->map[j]) { u32 t = p->map[i]; p->map[i] = p->map[j]; p->map[j] = t; }
  if (vh_int(0, 9) == 0) for (u32 i = 0; i < n; i++) p->map[i] = n - 1 - i;
  pd_regenerate_pcidx(p);
  vh_case("pd_increment_perm"); desc(PERM, p); vh_go(1);
  memcpy(m, p->map, sizeof(u32) * n);
  int k = (int)n - 2;
  while (k >= 0 && m[k] > m[k + 1]) k--;
  if (k < 0) for (u32 i = 0; i < n; i++) m[i] = i;
  else { int l = n - 1; while (m[l] < m[k]) l--; u32 t = m[k]; m[k] = m[l]; m[l] = t; for (int i = k + 1, j = n - 1; i < j; i++, j--) { t = m[i]; m[i] = m[j]; m[j] = t; } }
  pd_increment_perm(p);
  CHECK(!memcmp(m, p->map, sizeof(u32) * n) && ref_ok(PERM, p), "not the next permutation in lexicographic order");
  void *q = p; pd_free_perm(&q);
}
static void t_group(void) {
  u32 n = vh_int(0, 3) ? vh_int(1, 7) : vh_int(1, 13);
  pd_perm_t *a = rnd(PERM, n), *b = rnd(PERM, n);
  vh_case("pd_compose_perms"); desc(PERM, a); desc(PERM, b); vh_go(1);
  long l0 = vh_live;
  pd_perm_t *c = pd_compose_perms(a, b);
  CHECK(c->n == n && c != a && c != b, "size");
  for (u32 i = 0; i < n; i++) CHECK(c->map[i] == a->map[b->map[i]], "value at %u", i);
  CHECK(ref_ok(PERM, c), "not a permutation with its index");
  vh_set_fn("pd_inverse_perm");
  pd_perm_t *d = pd_inverse_perm(a);
  for (u32 i = 0; i < n; i++) CHECK(d->map[a->map[i]] == i, "value at %u", i);
  CHECK(ref_ok(PERM, d), "not a permutation with its index");
  vh_set_fn("pd_perm_period");
  u32 per = 1, x[16];
  for (memcpy(x, a->map, n * sizeof(u32));; per++) { u32 i; for (i = 0; i < n && x[i] == i; i++); if (i == n) break; for (i = 0; i < n; i++) x[i] = a->map[x[i]]; }
  CHECK(pd_perm_period(a) == per, "period %u, expected %u", pd_perm_period(a), per);
  vh_set_fn("pd_perm_is_e");
  CHECK(pd_perm_is_e(a) == (per == 1), "identity test");
  vh_set_fn("pd_perms_eq");
  CHECK(pd_perms_eq(a, b) == (ref_cmp(PERM, a, b) == 0) && pd_perms_eq(a, a), "equality test");
  vh_set_fn("pd_stareq_perm");
  pd_perm_t *e = pd_copy_perm(a);
  pd_stareq_perm(e, b);
  CHECK(!ref_cmp(PERM, e, c), "A *= B differs from A * B");
  CHECK(ref_ok(PERM, e), "not a permutation with its index");
  void *q;
  q = c; pd_free_perm(&q); q = d; pd_free_perm(&q); q = e; pd_free_perm(&q);
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
  q = a; pd_free_perm(&q); q = b; pd_free_perm(&q);
}
static void t_unique(int k) {
  u32 n = k == ORI ? 1 : vh_int(1, 4), cnt = vh_int(0, 6);
  void *buf[8], *orig[8];
  vh_case("pd_*s_unique"); vh_add("%u of ", cnt);
  int dup = 0;
  for (u32 i = 0; i < cnt; i++) { buf[i] = orig[i] = rnd(k, n); desc(k, buf[i]); for (u32 j = 0; j < i; j++) if (!ref_cmp(k, buf[i], buf[j])) dup = 1; }
  vh_go(cnt > 1);
  bool r = k == CYC ? pd_cyclics_unique(cnt, (pd_cyclic_t **)buf) : k == DIH ? pd_dihedrals_unique(cnt, (pd_dihedral_t **)buf) : k == ORI ? pd_orientations_unique(cnt, (pd_orientation_t **)buf) : pd_perms_unique(cnt, (pd_perm_t **)buf);
  CHECK(r == !dup, "says %s", r ? "unique" : "not unique");
  for (u32 i = 0; i < cnt; i++) { int f = 0; for (u32 j = 0; j < cnt; j++) f |= buf[j] == orig[i]; CHECK(f, "buffer lost an element"); }
  for (u32 i = 0; i < cnt; i++) OPS[k]->free(&orig[i]);
}
/* ---- tuples */
static void t_multi(void) {
  int k = (int)vh_int(0, 3);
  u32 nobj = vh_int(0, 4), sz[4], *data[4];
  unsigned long N = 1;
  for (u32 i = 0; i < nobj; i++) { sz[i] = k == PERM ? vh_int(1, 4) : vh_int(1, 5); data[i] = &sz[i]; N *= want_n(k, sz[i]); }
  if (N > 5000) return;
  vh_case("pd_new_multidx"); vh_add("tuples of %u %s:", nobj, KN[k]); for (u32 i = 0; i < nobj; i++) vh_add(" %u", sz[i]); vh_go(nobj > 0);
  long l0 = vh_live;
  pd_multidx_t *m = pd_new_multidx(nobj, k == ORI && vh_int(0, 1) ? NULL : (void **)data, *OPS[k]);
  CHECK(m->nobj == nobj, "number of objects");
  vh_set_fn("pd_multidx_nvals");
  CHECK(pd_multidx_nvals(m) == N, "%u values, expected %lu", pd_multidx_nvals(m), N);
  u32 st[4] = {0};
  unsigned long steps = N < 300 || vh_int(0, 9) == 0 ? N : 300;
  for (unsigned long s = 0;; s++) {
    for (u32 i = 0; i < nobj; i++) {
      CHECK(m->i[i] == st[i] && m->nvals[i] == want_n(k, sz[i]), "state %u after %lu advances", i, s);
      CHECK(is_value(k, sz[i], m->obj[i], st[i]), "object %u after %lu advances", i, s);
    }
    vh_set_fn("pd_multidx_ok");
    if (s % 7 == 0) CHECK(pd_multidx_ok(m), "rejected after %lu advances", s);
    if (s >= steps) break;
    if (s % 13 == (N < 6 ? 0 : 5)) {
      vh_set_fn("pd_copy_multidx");
      pd_multidx_t *c = pd_copy_multidx(m);
      CHECK(c != m && c->nobj == nobj && (!nobj || (c->obj != m->obj && c->i != m->i && c->nvals != m->nvals)), "shared storage");
      for (u32 i = 0; i < nobj; i++) CHECK(c->i[i] == st[i] && c->nvals[i] == m->nvals[i] && c->obj[i] != m->obj[i] && is_value(k, sz[i], c->obj[i], st[i]), "the copy differs at %u", i);
      CHECK(pd_iterops_eq(c->ops, m->ops), "operations");
      CHECK(pd_multidx_cmp(&c, &m) == 0, "comparison of equal values");
      vh_set_fn("pd_multidxs_unique");
      pd_multidx_t *same[3] = {m, c, m};
      long l2 = vh_live;
      CHECK(!pd_multidxs_unique(2, same) && !pd_multidxs_unique(3, same) && same[0] == m && same[1] == c && pd_multidxs_unique(0, same), "equal values called unique");
      CHECK(vh_live == l2, "%ld blocks left", vh_live - l2);
      vh_set_fn("pd_increment_multidx");
      pd_increment_multidx(c);
      if (N > 1) CHECK(pd_multidx_cmp(&c, &m) != 0 && sg(pd_multidx_cmp(&c, &m)) == -sg(pd_multidx_cmp(&m, &c)), "comparison of different values");
      pd_multidx_t *two[2] = {m, c};
      vh_set_fn("pd_multidxs_unique");
      long l1 = vh_live;
      CHECK(pd_multidxs_unique(2, two) == (N > 1) && two[0] == m && two[1] == c && pd_multidxs_unique(1, two), "unique");
      CHECK(vh_live == l1, "%ld blocks left", vh_live - l1);
      pd_free_multidx(&c);
      CHECK(!c, "pointer not cleared");
    }
    vh_set_fn("pd_increment_multidx");
    pd_increment_multidx(m);
    for (int i = (int)nobj - 1; i >= 0; i--) { if (++st[i] < want_n(k, sz[i])) break; st[i] = 0; }
  }
  if (nobj && vh_int(0, 2) == 0) { vh_set_fn("pd_multidx_ok"); u32 i = vh_int(0, nobj - 1), old = m->i[i]; m->i[i] = m->nvals[i] + vh_int(0, 2); CHECK(!pd_multidx_ok(m), "state out of range accepted"); m->i[i] = old; }
  vh_set_fn("pd_free_multidx");
  pd_free_multidx(&m);
  CHECK(!m && vh_live == l0, "%ld blocks left", vh_live - l0);
  pd_free_multidx(&m);
}
static void t_table(void) { /* the precomputed tables, all of them */
  vh_case("pd_pc_perm"); vh_add("all tables"); vh_go(1);
  for (u32 n = 1; n <= PD_MAX_PC_PERM; n++)
    for (u32 s = 0; s < fact(n); s++) {
      pd_perm_t p = {n, malloc(n * sizeof(u32)), 99};
      int d;
      value(PERM, n, s, p.map, &d);
      pd_regenerate_pcidx(&p);
      CHECK(p.pc_idx == s, "permutation %u of %u elements has index %u", s, n, p.pc_idx);
      free(p.map);
    }
  CHECK(pd_perm_pcdata_ok(false), "self test");
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  t_table();
  for (u32 n = 1; n <= 12; n++) t_walk(CYC, n), t_walk(DIH, n);
  t_walk(ORI, 1);
  for (u32 n = 1; n <= 8; n++) t_walk(PERM, n);
  while (vh_frac() < 1) {
    for (int k = 0; k < 4; k++) t_copy(k), t_ok(k), t_unique(k);
    t_walk((int)vh_int(0, 1), vh_int(1, 60));
    t_next(); t_group(); t_multi();
  }
  return vh_done();
}
