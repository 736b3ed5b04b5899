/* Executable contracts: diagram files and stores.  The Judy arrays underneath the store are stood in for by sorted lists. */
#include "vi.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include <Judy.h>
#include "pd_storage.c"
typedef struct jnode { Word_t key; char *s; Word_t val; struct jnode *next; } jnode;
static jnode *jfind(jnode *h, Word_t k, const char *s, int ge, int strict) {
  for (; h; h = h->next) {
    int c = s ? strcmp(h->s, s) : (h->key < k ? -1 : h->key > k);
    if (c == 0 && !strict) return h;
    if (c > 0 && ge) return h;
  }
  return NULL;
}
static PPvoid_t jins(PPvoid_t p, Word_t k, const char *s) {
  jnode *x = jfind(*p, k, s, 0, 0);
  if (!x) {
    jnode **q = (jnode **)p;
    while (*q && (s ? strcmp((*q)->s, s) < 0 : (*q)->key < k)) q = &(*q)->next;
    x = calloc(1, sizeof *x); x->key = k; x->s = s ? strdup(s) : NULL; x->next = *q; *q = x;
  }
  return (PPvoid_t)&x->val;
}
static Word_t jfree(PPvoid_t p) { jnode *h = *p; Word_t n = 0; while (h) { jnode *t = h->next; free(h->s); free(h); h = t; n += sizeof *h; } *p = NULL; return n; }
PPvoid_t JudyLIns(PPvoid_t p, Word_t k, P_JE) { return jins(p, k, NULL); }
PPvoid_t JudyLFirst(Pcvoid_t p, Word_t *k, P_JE) { jnode *x = jfind((jnode *)p, *k, NULL, 1, 0); if (!x) return NULL; *k = x->key; return (PPvoid_t)&x->val; }
PPvoid_t JudyLNext(Pcvoid_t p, Word_t *k, P_JE) { jnode *x = jfind((jnode *)p, *k, NULL, 1, 1); if (!x) return NULL; *k = x->key; return (PPvoid_t)&x->val; }
Word_t JudyLCount(Pcvoid_t p, Word_t a, Word_t b, P_JE) { Word_t n = 0; for (const jnode *h = p; h; h = h->next) n += h->key >= a && h->key <= b; return n; }
Word_t JudyLFreeArray(PPvoid_t p, P_JE) { return jfree(p); }
PPvoid_t JudySLIns(PPvoid_t p, const uint8_t *s, P_JE) { return jins(p, 0, (const char *)s); }
PPvoid_t JudySLGet(Pcvoid_t p, const uint8_t *s, P_JE) { jnode *x = jfind((jnode *)p, 0, (const char *)s, 0, 0); return x ? (PPvoid_t)&x->val : NULL; }
PPvoid_t JudySLFirst(Pcvoid_t p, uint8_t *s, P_JE) { jnode *x = jfind((jnode *)p, 0, (const char *)s, 1, 0); if (!x) return NULL; strcpy((char *)s, x->s); return (PPvoid_t)&x->val; }
PPvoid_t JudySLNext(Pcvoid_t p, uint8_t *s, P_JE) { jnode *x = jfind((jnode *)p, 0, (const char *)s, 1, 1); if (!x) return NULL; strcpy((char *)s, x->s); return (PPvoid_t)&x->val; }
Word_t JudySLFreeArray(PPvoid_t p, P_JE) { return jfree(p); }

static void rehash(pd_code_t *p) {
  static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/";
  int n = (int)vh_int(1, PD_HASHSIZE - 1);
  memset(p->hash, 0, PD_HASHSIZE);
  for (int i = 0; i < n; i++) p->hash[i] = cs[vh_int(0, 63)];
  p->uid = (pd_uid_t)vh_int(0, 100000);
}
static void retag(pd_code_t *p) {
  char t[26];
  for (int i = 0; i < 26; i++) t[i] = (char)('A' + i);
  for (pd_idx_t i = 0; i < p->ncomps; i++) { int j = (int)vh_int(i, 25); char s = t[i]; t[i] = t[j]; t[j] = s; p->comp[i].tag = t[i]; }
}
static pd_code_t *some(int maxx) {
  pd_code_t *p = vd_random(1, maxx, 4, (int)vh_int(0, 2), NULL);
  int mode = (int)vh_int(0, 3);
  for (pd_idx_t i = 0; i < p->ncross; i++) p->cross[i].sign = mode == 0 ? PD_UNSET_ORIENTATION : mode == 1 ? (pd_or_t)vh_int(0, 2) : mode == 2 ? (pd_or_t)vh_int(0, 1) : p->cross[i].sign;
  rehash(p);
  if (vh_int(0, 1)) retag(p);
  return p;
}
static const char *bad(const pd_code_t *p) {
  if (p->ncross == 0) return p->nedges == 1 && p->ncomps == 1 && p->nfaces == 2 ? NULL : "not the diagram without crossings";
  return vd_bad(p, 1);
}
static char buf[1 << 18];
static FILE *opens(size_t n) { return n ? fmemopen(buf, n, "r") : fopen("/dev/null", "r"); }
static void t_rw(void) {
  int k = (int)vh_int(1, 3);
  pd_code_t *p[3], *sv[3];
  vh_case("pd_write");
  for (int i = 0; i < k; i++) {
    if (vh_int(0, 7) == 0) { p[i] = pd_build_unknot(0); p[i]->comp[0].tag = (pd_tag_t)('A' + vh_int(0, 25)); strcpy(p[i]->hash, "unset"); sv[i] = NULL; vh_add("unknot without crossings, tag %c\n", p[i]->comp[0].tag); }
    else { p[i] = some(vh_int(0, 5) ? 12 : 30); sv[i] = vd_copy(p[i]); vd_add("pd", p[i]); vh_add(" hash %s uid %lu\n", p[i]->hash, (unsigned long)p[i]->uid); }
  }
  vh_go(1);
  FILE *f = fmemopen(buf, sizeof buf, "w");
  for (int i = 0; i < k; i++) {
    pd_write(f, p[i]);
    if (vh_int(0, 1)) fprintf(f, "\n");
    const char *d = sv[i] ? vd_diff(p[i], sv[i]) : NULL;
    CHECK(!d, "writing changed the diagram: %s", d);
  }
  size_t n = (size_t)ftell(f);
  fclose(f);
  vh_set_fn("pd_read");
  long live = vh_live;
  f = opens(n);
  for (int i = 0; i < k; i++) {
    int err = 0;
    pd_code_t *q = vh_int(0, 1) ? pd_read(f) : pd_read_err(f, &err);
    CHECK(q && err == 0, "diagram %d is not read (error %d)", i, err);
    if (sv[i]) {
      const char *d = vd_diff(sv[i], q);
      CHECK(!d, "diagram %d is read back differently: %s", i, d);
      CHECK(!strcmp(q->hash, sv[i]->hash) && q->uid == sv[i]->uid, "hash %s id %lu", q->hash, (unsigned long)q->uid);
    } else CHECK(!bad(q) && q->comp[0].tag == p[i]->comp[0].tag, "the unknot without crossings, tag %c", q->comp[0].tag);
    pd_code_free(&q);
  }
  int err = 0;
  pd_code_t *q = pd_read_err(f, &err);
  CHECK(!q && err != 0, "a diagram after the last one");
  fclose(f);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  for (int i = 0; i < k; i++) { if (sv[i]) vd_free(sv[i]), vd_free(p[i]); else pd_code_free(&p[i]); }
}
/* without hash, with crossings not in order */
static void t_loose(void) {
  pd_code_t *p = some(14);
  vh_case("pd_read"); vd_add("pd, written without hash and tags, crossings turned", p); vh_go(1);
  int *rot = calloc(p->ncross, sizeof(int)), tags = (int)vh_int(0, 1);
  FILE *f = fmemopen(buf, sizeof buf, "w");
  fprintf(f, "%spd\nnv %u\n", vh_int(0, 1) ? "\n  " : "", p->ncross);
  for (pd_idx_t i = 0; i < p->ncross; i++) {
    rot[i] = (int)vh_int(0, 3);
    for (int k = 0; k < 4; k++) fprintf(f, "%u ", p->cross[i].edge[(k + rot[i]) % 4]);
    fprintf(f, "%s\n", p->cross[i].sign == PD_UNSET_ORIENTATION ? "" : p->cross[i].sign == PD_POS_ORIENTATION ? "+" : "-");
  }
  fprintf(f, "ne %u\n", p->nedges);
  for (pd_idx_t i = 0; i < p->nedges; i++) fprintf(f, "%u,%u -> %u,%u\n", p->edge[i].tail, (p->edge[i].tailpos + 4 - rot[p->edge[i].tail]) % 4, p->edge[i].head, (p->edge[i].headpos + 4 - rot[p->edge[i].head]) % 4);
  fprintf(f, "nc %u\n", p->ncomps);
  for (pd_idx_t i = 0; i < p->ncomps; i++) {
    fprintf(f, "%u :", p->comp[i].nedges);
    for (pd_idx_t k = 0; k < p->comp[i].nedges; k++) fprintf(f, " %u", p->comp[i].edge[k]);
    if (tags) fprintf(f, " tag %c", p->comp[i].tag);
    fprintf(f, "\n");
  }
  fprintf(f, "nf %u\n", p->nfaces);
  for (pd_idx_t i = 0; i < p->nfaces; i++) {
    fprintf(f, "%u :", p->face[i].nedges);
    for (pd_idx_t k = 0; k < p->face[i].nedges; k++) fprintf(f, " %c %u", p->face[i].orient[k] == PD_POS_ORIENTATION ? '+' : '-', p->face[i].edge[k]);
    fprintf(f, "\n");
  }
  size_t n = (size_t)ftell(f);
  fclose(f);
  long live = vh_live;
  f = opens(n);
  pd_code_t *q = pd_read(f);
  CHECK(q, "not read");
  const char *d = vd_bad(q, 1);
  CHECK(!d, "read diagram: %s", d);
  if (!tags) for (pd_idx_t i = 0; i < p->ncomps; i++) { CHECK(q->comp[i].tag == (pd_tag_t)('A' + i), "tag %d", q->comp[i].tag); q->comp[i].tag = p->comp[i].tag; }
  CHECK(strcmp(q->hash, "unset") != 0, "no hash computed");
  memcpy(q->hash, p->hash, PD_HASHSIZE); q->uid = p->uid;
  d = vd_diff(p, q);
  CHECK(!d, "%s", d);
  pd_code_free(&q);
  fclose(f);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live); free(rot); vd_free(p);
}
static void t_broken(void) {
  pd_code_t *p = vh_int(0, 9) ? some(9) : pd_build_unknot(0);
  vh_case("pd_read");
  FILE *f = fmemopen(buf, sizeof buf, "w");
  pd_write(f, p);
  size_t n = (size_t)ftell(f);
  fclose(f);
  if (p->ncross) vd_free(p); else pd_code_free(&p);
  int how = (int)vh_int(0, 3);
  if (how == 0) n = (size_t)vh_int(0, (long)n - 1);
  else for (int k = (int)vh_int(1, 3); k > 0; k--) {
    size_t at = (size_t)vh_int(0, (long)n - 1);
    if (how == 1) buf[at] = "0123456789 +-\nxtag:,>"[vh_int(0, 20)];
    else if (how == 2) { /* another number, possibly large */
      while (at < n && !(buf[at] >= '0' && buf[at] <= '9')) at++;
      if (at < n) {
        size_t e = at;
        while (e < n && buf[e] >= '0' && buf[e] <= '9') e++;
        char r[16]; snprintf(r, sizeof r, "%ld", vh_int(0, 2) ? vh_int(0, 40) : vh_int(0, 5000));
        size_t l = strlen(r);
        memmove(buf + at + l, buf + e, n - e); memcpy(buf + at, r, l); n = n - (e - at) + l;
      }
    } else { /* leave out or repeat a line */
      size_t a = at, e = at;
      while (a > 0 && buf[a - 1] != '\n') a--;
      while (e < n && buf[e] != '\n') e++;
      if (e < n) e++;
      if (vh_int(0, 1)) { memmove(buf + a, buf + e, n - e); n -= e - a; }
      else { memmove(buf + e + (e - a), buf + e, n - e); memcpy(buf + e, buf + a, e - a); n += e - a; }
    }
  }
  buf[n] = 0;
  const char *nv = strstr(buf, "nv");
  if (nv) { long v = atol(nv + 2); if (v > 50000 && v < 2147483647L) return; } /* needs the memory it announces */
  vh_add("file:\n%.*s", (int)n, buf); vh_go(1);
  long live = vh_live;
  f = opens(n);
  int err = 0, we = (int)vh_int(0, 1);
  pd_code_t *q = we ? pd_read_err(f, &err) : pd_read(f);
  if (q) { CHECK(pd_ok(q) && err == 0, "accepted with error %d, %s", err, pd_ok(q) ? "well-formed" : "malformed"); pd_code_free(&q); }
  else CHECK(!we || err != 0, "rejected without an error code");
  fclose(f);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
}
static int kt_clear(const pd_code_t *p) { /* directions determined by the numbers: no component of one or two edges */
  for (pd_idx_t i = 0; i < p->ncomps; i++) if (p->comp[i].nedges < 3) return 0;
  return 1;
}
static void t_kt(void) {
  pd_code_t *p = vd_random(2, vh_int(0, 3) ? 12 : 28, 3, 0, NULL);
  if (!kt_clear(p)) { vd_free(p); return; }
  pd_code_t *sv = vd_copy(p);
  vh_case("pd_write_KnotTheory"); vd_add("pd", p); vh_go(1);
  FILE *f = fmemopen(buf, sizeof buf, "w");
  pd_write_KnotTheory(f, p);
  size_t n = (size_t)ftell(f);
  fclose(f);
  const char *d = vd_diff(p, sv);
  CHECK(!d, "writing changed the diagram: %s", d);
  /* the text itself: one X per crossing, incoming under edge first, counterclockwise, from 1 on */
  const char *s = buf;
  CHECK(!strncmp(s, "PD[", 3), "text"); s += 3;
  for (pd_idx_t c = 0; c < p->ncross; c++) {
    unsigned e[4]; int l = 0;
    CHECK(sscanf(s, "X[%u,%u,%u,%u]%n", &e[0], &e[1], &e[2], &e[3], &l) == 4 && l, "crossing %u", c);
    s += l; if (*s == ',') s++;
    int k0 = -1;
    for (int k = 0; k < 4; k++) {
      int in = vd_isin(p, c, k), in1 = vd_isin(p, c, (k + 1) % 4);
      /* counterclockwise list: a positive crossing has the over strand coming in one place after the under strand leaves... */
      if (in && vd_isin(p, c, (k + 2) % 4)) CHECK(0, "generator");
      if (in && (p->cross[c].sign == PD_POS_ORIENTATION ? !in1 : in1)) k0 = k;
    }
    CHECK(k0 >= 0, "generator");
    for (int k = 0; k < 4; k++) CHECK(e[k] == p->cross[c].edge[(k0 + k) % 4] + 1, "crossing %u is written as X[%u,%u,%u,%u]", c, e[0], e[1], e[2], e[3]);
  }
  vh_set_fn("pd_read_KnotTheory");
  long live = vh_live;
  f = opens(n);
  pd_code_t *q = pd_read_KnotTheory(f);
  CHECK(q, "not read");
  d = vd_bad(q, 1);
  CHECK(!d, "read diagram: %s", d);
  CHECK(vd_niso(p, q, 0, 1, 1) > 0, "not the diagram that was written");
  pd_code_free(&q);
  fclose(f);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live); vd_free(sv); vd_free(p);
}
static void t_ktbroken(void) {
  pd_code_t *p = vd_random(1, 9, 3, 0, NULL);
  vh_case("pd_read_KnotTheory");
  FILE *f = fmemopen(buf, sizeof buf, "w");
  pd_write_KnotTheory(f, p);
  size_t n = (size_t)ftell(f);
  fclose(f);
  int how = (int)vh_int(0, 2);
  if (how == 0) { /* ends early, inside a crossing */
    size_t l = n;
    while (l > 0 && buf[l - 1] != ']') l--;
    if (l) l--;
    while (l > 0 && buf[l - 1] != ']') l--;
    n = (size_t)vh_int(0, l > 1 ? (long)l - 2 : 0);
    while (n > 0 && (buf[n - 1] == ']')) n--;
    buf[n] = 0;
  } else {
    pd_idx_t e = p->nedges;
    long w = how == 1 ? (vh_int(0, 1) ? e + vh_int(1, 100) : vh_int(-50, 0)) : vh_int(1, e);
    int k = (int)vh_int(0, 4 * p->ncross - 1), at = 0;
    char *q = buf, *z;
    for (;; q++) if (*q >= '0' && *q <= '9') { long old = strtol(q, &z, 10); if (at++ == k) { if (old == w) { vd_free(p); return; } break; } q = z; }
    char tail[1 << 12], r[32];
    snprintf(tail, sizeof tail, "%s", z); snprintf(r, sizeof r, "%ld", w);
    strcpy(q, r); strcat(q, tail); n = strlen(buf);
  }
  vd_free(p);
  vh_add("file:\n%.*s", (int)n, buf); vh_go(1);
  long live = vh_live;
  f = opens(n);
  pd_code_t *r = pd_read_KnotTheory(f);
  fclose(f);
  CHECK(!r, "accepted");
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
}
#define NS 14
static void t_stor(void) {
  pd_equivalence_t eq = (pd_equivalence_t[]){NONE, ISOMORPHISM, DIAGRAM_ISOTOPY}[vh_int(0, 2)];
  int k = (int)vh_int(0, 10), n = 0, cls[NS];
  pd_code_t *p[NS];
  vh_case("pd_addto_pdstor");
  vh_add("equivalence %d\n", (int)eq);
  for (int i = 0; i < k; i++) {
    if (i && vh_int(0, 2) == 0) p[i] = vd_copy(p[vh_int(0, i - 1)]);
    else p[i] = vd_random(1, 7, 1, 0, NULL);
    if (vh_int(0, 1)) for (pd_idx_t c = 0; c < p[i]->ncross; c++) p[i]->cross[c].sign = (pd_or_t)vh_int(0, 1);
    pd_regenerate_hash(p[i]);
    vd_add("pd", p[i]); vh_add(" hash %s\n", p[i]->hash);
  }
  vh_go(k > 1);
  long live = vh_live;
  pd_stor_t *S = pd_new_pdstor();
  CHECK(pd_stor_nelts(S) == 0, "new store has elements");
  for (int i = 0; i < k; i++) {
    cls[i] = -1;
    if (eq != NONE) for (int j = 0; j < i && cls[i] < 0; j++) {
      int same = 0;
      if (eq == DIAGRAM_ISOTOPY) same = vd_niso(p[i], p[j], 0, 1, 1) > 0 || vd_niso(p[i], p[j], 1, 1, 1) > 0;
      else same = vd_niso(p[i], p[j], 0, 2, 0) > 0 || vd_niso(p[i], p[j], 1, 2, 0) > 0; /* either reflection, either direction: signs play no part */
      if (same) cls[i] = cls[j];
    }
    int isnew = cls[i] < 0;
    if (isnew) cls[i] = n++;
    pd_code_t *sv = vd_copy(p[i]);
    pd_addto_pdstor(S, p[i], eq);
    CHECK((int)pd_stor_nelts(S) == n, "%d elements after adding diagram %d, expected %d", (int)pd_stor_nelts(S), i, n);
    for (int j = 0; j < i; j++) if (!strcmp(p[i]->hash, p[j]->hash)) CHECK((p[i]->uid == p[j]->uid) == (cls[i] == cls[j]), "ids of diagrams %d and %d: %lu, %lu", i, j, (unsigned long)p[i]->uid, (unsigned long)p[j]->uid);
    sv->uid = p[i]->uid;
    const char *d = vd_diff(p[i], sv);
    CHECK(!d, "adding changed the diagram: %s", d);
    vd_free(sv);
  }
  unsigned nh = 99, ne = 99;
  vh_set_fn("pd_stor_stats");
  pd_stor_stats(S, &nh, &ne);
  unsigned wh = 0;
  for (int i = 0; i < k; i++) { int f = 0; for (int j = 0; j < i; j++) f |= !strcmp(p[i]->hash, p[j]->hash); wh += !f; }
  CHECK(ne == (unsigned)n && nh == wh, "%u hashes, %u elements; expected %u, %d", nh, ne, wh, n);
  pd_stor_t *T = NULL;
  for (int pass = 0; pass < 2; pass++) {
    int seen[NS] = {0}, m = 0;
    pd_stor_t *X = pass ? T : S;
    if (pass && n == 0) break;
    vh_set_fn(pass ? "pd_read_pdstor" : "pd_stor_firstelt");
    for (pd_code_t *q = pd_stor_firstelt(X); q; q = pd_stor_nextelt(X)) {
      int at = -1;
      const char *d = vd_bad(q, 1);
      CHECK(!d, "stored diagram: %s", d);
      for (int i = 0; i < k && at < 0; i++) if (!strcmp(p[i]->hash, q->hash) && !seen[i] && vd_niso(p[i], q, 0, 1, 1) > 0) at = i;
      if (at < 0) for (int i = 0; i < k && at < 0; i++) if (eq != NONE && vd_niso(p[i], q, 0, 1, 1) > 0) at = i;
      CHECK(at >= 0, "an element that was never added (or twice)");
      if (eq == NONE) { CHECK(!seen[at], "twice"); seen[at] = 1; }
      else { CHECK(!seen[cls[at]], "two elements of one class"); seen[cls[at]] = 1; }
      m++;
      pd_code_free(&q);
    }
    CHECK(m == n, "%d elements visited, %d stored", m, n);
    if (pass) break;
    vh_set_fn("pd_search_pdstor_by_isomorphism");
    for (int i = 0; i < k; i++) {
      pd_iso_t **is = NULL; unsigned ni = 0;
      pd_code_t *q = pd_search_pdstor_by_isomorphism(S, p[i], &is, &ni);
      CHECK(q && ni > 0, "a stored diagram is not found");
      CHECK(!strcmp(q->hash, p[i]->hash), "hash");
      pd_free_isos(&ni, &is);
      pd_code_free(&q);
    }
    vh_set_fn("pd_write_pdstor");
    FILE *f = fmemopen(buf, sizeof buf, "w");
    if (vh_int(0, 2)) pd_write_pdstor(f, S);
    else {
      unsigned a = 0, b = 0;
      pd_start_incremental_pdstor(f);
      if (n) pd_addto_incremental_pdstor(f, S, &a, &b);
      long at = ftell(f);
      pd_finish_incremental_pdstor(f, a, b);
      fseek(f, at, SEEK_SET);
    }
    size_t len = (size_t)ftell(f);
    fclose(f);
    { /* the announced numbers */
      unsigned c1 = 0, c2 = 0, c3 = 0, nh = 0;
      char *h = strstr(buf, "nelts"); CHECK(h && sscanf(h, "nelts %u/%u (claimed/actual) nhashes %u", &c1, &c2, &c3) == 3, "no header");
      for (int i = 0; i < k; i++) { int f = 0; for (int j = 0; j < i; j++) if (!strcmp(p[i]->hash, p[j]->hash)) f = 1; nh += !f; }
      CHECK((int)c1 == n && (int)c2 == n && c3 == nh, "the header announces %u/%u elements and %u hashes, the store has %d and %u", c1, c2, c3, n, nh);
    }
    vh_set_fn("pd_read_pdstor");
    if (n > 0) { /* a header that contradicts itself; an early end */
      long lv = vh_live;
      f = opens((size_t)vh_int(1, (long)len / 2));
      pd_stor_t *U = pd_read_pdstor(f, eq);
      CHECK(!U, "half a file is accepted");
      fclose(f);
      char *sl = strchr(buf, '/');
      sl[-1] = sl[-1] == '9' ? '8' : (char)(sl[-1] + 1);
      f = opens(len);
      U = pd_read_pdstor(f, eq);
      CHECK(!U, "a file with a contradictory header is accepted");
      fclose(f);
      CHECK(vh_live == lv, "memory kept: %ld blocks", vh_live - lv);
      sl[-1] = sl[-1] == '8' ? '9' : (char)(sl[-1] - 1);
      sscanf(sl + 1, "%u", &ne);
      char num[32]; snprintf(num, sizeof num, "%u", ne); (void)num;
      char c = sl[1]; int d = 1; while (sl[d + 1] >= '0' && sl[d + 1] <= '9') d++;
      memcpy(sl - (d), sl + 1, (size_t)d); (void)c; /* claimed = actual again */
    }
    f = opens(len);
    T = pd_read_pdstor(f, eq);
    CHECK(T, "the store is not read");
    CHECK((int)pd_stor_nelts(T) == n, "%u elements read, %d written", pd_stor_nelts(T), n);
    fclose(f);
  }
  pd_free_pdstor(&T);
  pd_free_pdstor(&S);
  CHECK(S == NULL, "pointer not cleared");
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  for (int i = 0; i < k; i++) vd_free(p[i]);
}
int main(int argc, char **argv) {
  static char ob[4096];
  if (freopen("/dev/null", "w", stdout)) setvbuf(stdout, ob, _IOFBF, sizeof ob); /* the library reports there */
  vh_init(argc, argv);
  while (vh_frac() < 1) {
    t_rw(); t_loose();
    for (int k = 0; k < 3; k++) t_broken(), t_kt(), t_ktbroken();
    t_stor();
  }
  return vh_done();
}
