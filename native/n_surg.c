/* Executable contracts: moves and sums of diagrams.  The expected result is built separately: crossings are taken out by
   joining the strands straight through them, or put in, and the outcome is compared up to renumbering. */
#include "vi.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_splitdiagram.h"
typedef struct { pd_code_t *pd; pd_tag_t *tag; } ex; /* crossings and edges only, with the tag of each edge */
static pd_tag_t tagof(const pd_code_t *p, pd_idx_t e) {
  for (pd_idx_t c = 0; c < p->ncomps; c++) for (pd_idx_t k = 0; k < p->comp[c].nedges; k++) if (p->comp[c].edge[k] == e) return p->comp[c].tag;
  return 0;
}
static ex ex_of(const pd_code_t *p) {
  ex x = {pd_code_new(p->ncross + 4), calloc(p->nedges + 16, sizeof(pd_tag_t))};
  x.pd->ncross = p->ncross; x.pd->nedges = p->nedges; x.pd->ncomps = x.pd->nfaces = 0;
  for (pd_idx_t i = 0; i < p->ncross; i++) x.pd->cross[i] = p->cross[i];
  for (pd_idx_t i = 0; i < p->nedges; i++) x.pd->edge[i] = p->edge[i], x.tag[i] = tagof(p, i);
  return x;
}
static void ex_free(ex x) { vd_free(x.pd); free(x.tag); }
/* take crossings out; circles without crossings left over are counted with their tags */
static ex ex_drop(ex a, const char *del, int *ncirc, pd_tag_t *circ) {
  pd_code_t *p = a.pd;
  ex x = {pd_code_new(p->ncross + 2), calloc(p->nedges + 16, sizeof(pd_tag_t))};
  int *nc = calloc(p->ncross + 1, sizeof(int)), n = 0, m = 0;
  char *used = calloc(p->nedges + 1, 1);
  for (pd_idx_t i = 0; i < p->ncross; i++) nc[i] = del[i] ? -1 : n++;
  for (pd_idx_t i = 0; i < p->ncross; i++) if (nc[i] >= 0) x.pd->cross[nc[i]].sign = p->cross[i].sign;
  for (pd_idx_t e = 0; e < p->nedges; e++) if (nc[p->edge[e].tail] >= 0) {
    pd_idx_t f = e;
    used[f] = 1;
    while (nc[p->edge[f].head] < 0) { f = p->cross[p->edge[f].head].edge[(p->edge[f].headpos + 2) % 4]; used[f] = 1; }
    x.pd->edge[m].tail = nc[p->edge[e].tail]; x.pd->edge[m].tailpos = p->edge[e].tailpos;
    x.pd->edge[m].head = nc[p->edge[f].head]; x.pd->edge[m].headpos = p->edge[f].headpos;
    x.pd->cross[x.pd->edge[m].tail].edge[x.pd->edge[m].tailpos] = m;
    x.pd->cross[x.pd->edge[m].head].edge[x.pd->edge[m].headpos] = m;
    x.tag[m++] = a.tag[e];
  }
  if (ncirc) *ncirc = 0;
  for (pd_idx_t e = 0; e < p->nedges; e++) if (!used[e]) {
    if (ncirc) circ[(*ncirc)++] = a.tag[e];
    for (pd_idx_t f = e; !used[f];) { used[f] = 1; f = p->cross[p->edge[f].head].edge[(p->edge[f].headpos + 2) % 4]; }
  }
  x.pd->ncross = n; x.pd->nedges = m; x.pd->ncomps = x.pd->nfaces = 0;
  free(nc); free(used);
  return x;
}
/* the connected piece of crossing c0 */
static ex ex_piece(ex a, pd_idx_t c0, char *in) {
  pd_code_t *p = a.pd;
  char *del = calloc(p->ncross + 1, 1);
  memset(in, 0, p->ncross);
  in[c0] = 1;
  for (int ch = 1; ch;) { ch = 0; for (pd_idx_t e = 0; e < p->nedges; e++) if (in[p->edge[e].head] != in[p->edge[e].tail]) in[p->edge[e].head] = in[p->edge[e].tail] = 1, ch = 1; }
  for (pd_idx_t i = 0; i < p->ncross; i++) del[i] = !in[i];
  /* the pieces have no common edge, so dropping the others is exact */
  ex x = ex_drop(a, del, NULL, NULL);
  free(del);
  return x;
}
static int nodirs; /* directions are not kept where signs are unknown */
/* same signed directed diagram; tags too if asked */
static int ex_same(ex x, const pd_code_t *q, int tags) {
  if (x.pd->ncross != q->ncross || x.pd->nedges != q->nedges) return 0;
  pd_idx_t *em = vd_ialloc(x.pd->nedges);
  int ok = 0;
  for (pd_idx_t c = 0; c < q->ncross && !ok; c++) for (int p = 0; p < 4 && !ok; p++) if (vd_iso_from(x.pd, q, c, p, 0, !nodirs, 1, em)) {
    ok = 1;
    if (tags) for (pd_idx_t e = 0; e < x.pd->nedges && ok; e++) if (x.tag[e] != tagof(q, em[e])) ok = 0;
  }
  free(em);
  return ok;
}
static int unknot0(const pd_code_t *q, pd_tag_t tag) { return q->ncross == 0 && q->nedges == 1 && q->ncomps == 1 && q->nfaces == 2 && q->comp[0].tag == tag; }
static void okpd(const char *w, pd_code_t *q) {
  const char *d = q->ncross ? vd_bad(q, 1) : NULL;
  CHECK(!d, "%s is malformed: %s", w, d);
  CHECK(pd_ok(q), "%s fails its own check", w);
  CHECK(q->ncross <= q->MAXVERTS && q->nedges <= q->MAXEDGES && q->ncomps <= q->MAXCOMPONENTS && q->nfaces <= q->MAXFACES, "%s: room", w);
  pd_code_t *h = vd_copy(q);
  if (q->ncross) { pd_regenerate_hash(h); CHECK(!strcmp(h->hash, q->hash), "%s: hash %s, should be %s", w, q->hash, h->hash); }
  vd_free(h);
}
static void retag(pd_code_t *p) {
  char t[26];
  for (int i = 0; i < 26; i++) t[i] = (char)('A' + i);
  for (pd_idx_t i = 0; i < p->ncomps; i++) { int j = (int)vh_int(i, 25); char s = t[i]; t[i] = t[j]; t[j] = s; p->comp[i].tag = t[i]; }
}
static pd_code_t *some(int minx, int maxx, int maxc) {
  pd_code_t *p = vd_random(minx, maxx, maxc, (int)vh_int(0, 2), NULL);
  int m = (int)vh_int(0, 3);
  if (m == 0) for (pd_idx_t i = 0; i < p->ncross; i++) p->cross[i].sign = PD_UNSET_ORIENTATION;
  if (m == 1) for (pd_idx_t i = 0; i < p->ncross; i++) p->cross[i].sign = (pd_or_t)vh_int(0, 1);
  retag(p);
  pd_regenerate_hash(p);
  return p;
}
static void t_r1(void) {
  pd_code_t *p = some(1, vh_int(0, 2) ? 6 : 14, 3), *sv = vd_copy(p);
  for (pd_idx_t c = 0; c < p->ncross; c++) {
    int loop = 0;
    for (int k = 0; k < 4; k++) loop |= p->cross[c].edge[k] == p->cross[c].edge[(k + 1) % 4];
    if (!loop) continue;
    vh_case("pd_R1_loopdeletion"); vd_add("pd", p); vh_add("crossing %u\n", c); vh_go(1);
    long live = vh_live;
    pd_code_t *q = pd_R1_loopdeletion(p, c);
    CHECK(q, "no diagram");
    okpd("the result", q);
    if (p->ncross == 1) CHECK(q->ncross == 0 && q->ncomps == 1, "not the diagram without crossings");
    else {
      char *del = calloc(p->ncross, 1); del[c] = 1;
      ex a = ex_of(p), x = ex_drop(a, del, NULL, NULL);
      CHECK(ex_same(x, q, 1), "not the diagram with the loop pulled straight");
      ex_free(a); ex_free(x); free(del);
    }
    pd_code_free(&q);
    CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
    const char *d = vd_diff(p, sv);
    CHECK(!d, "the argument changed: %s", d);
  }
  /* pd_simplify: no loops left, and reached by loop deletions (same diagram in any order) */
  vh_case("pd_simplify"); vd_add("pd", p); vh_go(1);
  long live = vh_live;
  pd_code_t *q = pd_simplify(p);
  CHECK(q, "no diagram");
  okpd("the result", q);
  ex a = ex_of(p);
  while (a.pd->ncross > 0) {
    int at = -1;
    for (pd_idx_t c = 0; c < a.pd->ncross && at < 0; c++) for (int k = 0; k < 4; k++) if (a.pd->cross[c].edge[k] == a.pd->cross[c].edge[(k + 1) % 4]) at = (int)c;
    if (at < 0) break;
    char *del = calloc(a.pd->ncross, 1); del[at] = 1;
    ex x = ex_drop(a, del, NULL, NULL);
    ex_free(a); free(del); a = x;
  }
  if (a.pd->ncross == 0) CHECK(q->ncross == 0, "%u crossings left, should be none", q->ncross);
  else CHECK(ex_same(a, q, 1), "not the diagram without its loops");
  ex_free(a);
  pd_code_free(&q);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  vd_free(sv); vd_free(p);
}
static void t_r1add(void) {
  pd_code_t *p = some(1, 10, 3), *sv = vd_copy(p);
  pd_idx_t f = (pd_idx_t)vh_int(0, p->nfaces - 1), k = (pd_idx_t)vh_int(0, p->face[f].nedges - 1);
  pd_idx_t e = p->face[f].edge[k];
  int left = p->face[f].orient[k] == PD_POS_ORIENTATION;
  vh_case("pd_R1_loop_addition"); vd_add("pd", p); vh_add("face %u edge %u of it\n", f, k); vh_go(1);
  long live = vh_live;
  pd_code_t *q = pd_R1_loop_addition(p, f, k);
  CHECK(q, "no diagram");
  okpd("the result", q);
  /* expected: the strand passes a new crossing twice, its loop in the face */
  ex a = ex_of(p);
  pd_idx_t c = a.pd->ncross++, l = a.pd->nedges++, b = a.pd->nedges++;
  a.tag[l] = a.tag[b] = a.tag[e];
  pd_edge_t o = a.pd->edge[e];
  /* directions in, over the loop and out, counterclockwise: loop on the left: in, out, loop end.. */
  pd_pos_t in = 0, out = left ? 1 : 3, ls = 2, le = left ? 3 : 1;
  a.pd->edge[e] = (pd_edge_t){.head = c, .headpos = in, .tail = o.tail, .tailpos = o.tailpos};
  a.pd->edge[l] = (pd_edge_t){.tail = c, .tailpos = ls, .head = c, .headpos = le};
  a.pd->edge[b] = (pd_edge_t){.tail = c, .tailpos = out, .head = o.head, .headpos = o.headpos};
  a.pd->cross[c].edge[in] = e; a.pd->cross[c].edge[ls] = a.pd->cross[c].edge[le] = l; a.pd->cross[c].edge[out] = b;
  a.pd->cross[c].sign = PD_UNSET_ORIENTATION;
  a.pd->cross[o.head].edge[o.headpos] = b; a.pd->cross[o.tail].edge[o.tailpos] = e;
  CHECK(ex_same(a, q, 0), "not the diagram with a loop of edge %u in that face", e);
  ex_free(a);
  pd_code_free(&q);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  const char *d = vd_diff(p, sv);
  CHECK(!d, "the argument changed: %s", d);
  vd_free(sv); vd_free(p);
}
static int under_at(const pd_code_t *p, pd_idx_t c, int k) { /* is slot k on the lower strand */
  for (int j = 0; j < 4; j++) if (vd_isin(p, c, j)) {
    int in1 = vd_isin(p, c, (j + 1) % 4);
    if (p->cross[c].sign == PD_NEG_ORIENTATION ? in1 : !in1) return (j & 1) == (k & 1);
  }
  return 0;
}
static int slot(const pd_code_t *p, pd_idx_t c, pd_idx_t e) { for (int k = 0; k < 4; k++) if (p->cross[c].edge[k] == e) return k; return -1; }
static void r2(pd_code_t *p) {
  pd_code_t *sv = vd_copy(p);
  for (pd_idx_t f = 0; f < p->nfaces; f++) if (p->face[f].nedges == 2) {
    pd_idx_t e = p->face[f].edge[0], g = p->face[f].edge[1], c0 = p->edge[e].head, c1 = p->edge[e].tail;
    if (c0 == c1 || e == g) continue;
    int shadow = p->cross[c0].sign == PD_UNSET_ORIENTATION && p->cross[c1].sign == PD_UNSET_ORIENTATION;
    if (!shadow && (p->cross[c0].sign == PD_UNSET_ORIENTATION || p->cross[c1].sign == PD_UNSET_ORIENTATION)) continue;
    int eu = under_at(p, c0, slot(p, c0, e));
    if (!shadow && eu != under_at(p, c1, slot(p, c1, e))) continue;
    pd_idx_t cr[2] = {c0, c1};
    if (vh_int(0, 1)) cr[0] = c1, cr[1] = c0;
    vh_case("pd_R2_bigon_elimination"); vd_add("pd", p); vh_add("crossings %u %u\n", cr[0], cr[1]); vh_go(1);
    long live = vh_live;
    pd_idx_t n = 77; pd_code_t **out = NULL;
    pd_R2_bigon_elimination(p, cr, &n, &out);
    CHECK(out && (n == 1 || n == 2), "%u diagrams", n);
    for (pd_idx_t i = 0; i < n; i++) { CHECK(out[i], "no diagram"); okpd(i ? "the second result" : "the result", out[i]); }
    char *del = calloc(p->ncross, 1), *in = calloc(p->ncross, 1); del[c0] = del[c1] = 1;
    pd_tag_t circ[8]; int nc = 0;
    ex a = ex_of(p), x = ex_drop(a, del, &nc, circ);
    pd_tag_t top = tagof(p, eu ? g : e);
    int pieces = nc;
    ex pc[2]; int np = 0;
    memset(in, 0, p->ncross);
    char *seen = calloc(p->ncross + 1, 1);
    for (pd_idx_t c = 0; c < x.pd->ncross; c++) if (!seen[c]) { CHECK(np < 2, "generator"); pc[np++] = ex_piece(x, c, in); for (pd_idx_t d = 0; d < x.pd->ncross; d++) seen[d] |= in[d]; }
    pieces += np;
    CHECK((int)n == pieces, "%u diagrams, the move leaves %d pieces", n, pieces);
    for (pd_idx_t i = 0; i < n; i++) {
      int hit = 0;
      for (int k = 0; k < np && !hit; k++) if (pc[k].pd && ex_same(pc[k], out[i], 1)) { hit = 1; ex_free(pc[k]); pc[k].pd = NULL; }
      for (int k = 0; k < nc && !hit; k++) if (circ[k] && unknot0(out[i], circ[k])) { hit = 1; circ[k] = 0; }
      CHECK(hit, "result %u is not a piece of the diagram with the bigon removed", i);
    }
    if (n == 2 && !shadow) { int f0 = 0; for (pd_idx_t c = 0; c < out[0]->ncomps; c++) f0 |= out[0]->comp[c].tag == top; CHECK(f0, "the upper strand is not in the first result"); }
    for (pd_idx_t i = 0; i < n; i++) pd_code_free(&out[i]);
    free(out);
    ex_free(a); ex_free(x); free(del); free(in); free(seen);
    CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
    const char *d = vd_diff(p, sv);
    CHECK(!d, "the argument changed: %s", d);
  }
  vd_free(sv);
}
/* two clusters of components which overlap in one corner, the second all over or all under the first: removing that bigon splits the diagram */
static pd_code_t *clusters(void) {
  for (;;) {
    vd_poly P;
    P.ncomp = (int)vh_int(2, 4);
    int na = (int)vh_int(1, P.ncomp - 1), in[4], k = 0;
    memset(in, 0, sizeof in);
    while (k < na) { int c = (int)vh_int(0, P.ncomp - 1); if (!in[c]) in[c] = 1, k++; }
    double ax = -1e9, ay = 0, bx = 1e9, by = 0, dz = vh_int(0, 1) ? 3000 : -3000;
    for (int c = 0; c < P.ncomp; c++) {
      P.nv[c] = (int)vh_int(3, 5);
      for (int v = 0; v < P.nv[c]; v++) {
        double x = P.x[c][v] = vh_int(0, 1000), y = P.y[c][v] = vh_int(0, 1000); P.z[c][v] = vh_real(0, 1000) + (in[c] ? 0 : dz);
        if (in[c] && x > ax) ax = x, ay = y;
        if (!in[c] && x < bx) bx = x, by = y;
      }
    }
    double tx = ax - bx - vh_int(3, 40), ty = ay - by + vh_int(-2, 2);
    for (int c = 0; c < P.ncomp; c++) if (!in[c]) for (int v = 0; v < P.nv[c]; v++) P.x[c][v] += tx, P.y[c][v] += ty;
    pd_code_t *p = vd_build(&P, 2, 16, (int)vh_int(0, 2), NULL);
    if (!p) continue;
    if (vh_int(0, 3) == 0) for (pd_idx_t i = 0; i < p->ncross; i++) p->cross[i].sign = PD_UNSET_ORIENTATION;
    retag(p);
    pd_regenerate_hash(p);
    return p;
  }
}
static void t_r2(void) { pd_code_t *p = vh_int(0, 1) ? clusters() : some(2, vh_int(0, 2) ? 7 : 14, 3); r2(p); vd_free(p); }
static void t_r2add(void) {
  pd_code_t *p = some(1, 9, 3), *sv = vd_copy(p);
  pd_idx_t f = (pd_idx_t)vh_int(0, p->nfaces - 1);
  pd_idx_t i = (pd_idx_t)vh_int(0, p->face[f].nedges - 1), j = (pd_idx_t)vh_int(0, p->face[f].nedges - 1);
  if (p->face[f].edge[i] == p->face[f].edge[j]) { vd_free(sv); vd_free(p); return; }
  vh_case("pd_R2_bigon_addition"); vd_add("pd", p); vh_add("face %u edges %u %u of it\n", f, i, j); vh_go(1);
  long live = vh_live;
  pd_code_t *q = pd_R2_bigon_addition(p, f, i, j, PD_POS_ORIENTATION);
  CHECK(q, "no diagram");
  okpd("the result", q);
  CHECK(q->ncross == p->ncross + 2, "%u crossings", q->ncross);
  /* some bigon of two unsigned crossings, taken out, gives the diagram back */
  int hit = 0;
  ex a = ex_of(q);
  for (pd_idx_t g = 0; g < q->nfaces && !hit; g++) if (q->face[g].nedges == 2) {
    pd_idx_t e = q->face[g].edge[0], c0 = q->edge[e].head, c1 = q->edge[e].tail;
    if (c0 == c1 || q->cross[c0].sign != PD_UNSET_ORIENTATION || q->cross[c1].sign != PD_UNSET_ORIENTATION) continue;
    char *del = calloc(q->ncross, 1); del[c0] = del[c1] = 1;
    ex x = ex_drop(a, del, NULL, NULL);
    hit = x.pd->ncross && ex_same(x, p, 0);
    ex_free(x); free(del);
  }
  CHECK(hit, "no bigon whose removal gives the diagram back");
  ex_free(a);
  pd_code_free(&q);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  const char *d = vd_diff(p, sv);
  CHECK(!d, "the argument changed: %s", d);
  vd_free(sv); vd_free(p);
}
static void t_sum(void) {
  pd_code_t *A = some(1, 8, 3), *B = some(1, 8, 3), *sa = vd_copy(A), *sb = vd_copy(B);
  pd_idx_t ea = (pd_idx_t)vh_int(0, A->nedges - 1), eb = (pd_idx_t)vh_int(0, B->nedges - 1);
  vh_case("pd_connect_sum"); vd_add("A", A); vd_add("B", B); vh_add("edges %u %u\n", ea, eb); vh_go(1);
  long live = vh_live;
  pd_code_t *q = pd_connect_sum(A, ea, B, eb);
  CHECK(q, "no diagram");
  okpd("the sum", q);
  CHECK(q->ncomps == A->ncomps + B->ncomps - 1, "%u components", q->ncomps);
  pd_idx_t n = A->ncross, m = A->nedges;
  ex x = {pd_code_new(n + B->ncross + 2), calloc(m + B->nedges + 2, sizeof(pd_tag_t))};
  x.pd->ncross = n + B->ncross; x.pd->nedges = m + B->nedges; x.pd->ncomps = x.pd->nfaces = 0;
  for (pd_idx_t c = 0; c < n; c++) x.pd->cross[c] = A->cross[c];
  for (pd_idx_t c = 0; c < B->ncross; c++) { x.pd->cross[n + c] = B->cross[c]; for (int k = 0; k < 4; k++) x.pd->cross[n + c].edge[k] += m; }
  for (pd_idx_t e = 0; e < m; e++) x.pd->edge[e] = A->edge[e];
  for (pd_idx_t e = 0; e < B->nedges; e++) { x.pd->edge[m + e] = B->edge[e]; x.pd->edge[m + e].head += n; x.pd->edge[m + e].tail += n; }
  pd_edge_t *u = &x.pd->edge[ea], *v = &x.pd->edge[m + eb], s = *u;
  u->head = v->head; u->headpos = v->headpos; v->head = s.head; v->headpos = s.headpos;
  x.pd->cross[u->head].edge[u->headpos] = ea; x.pd->cross[v->head].edge[v->headpos] = m + eb;
  for (pd_idx_t c = 0; c < x.pd->ncross; c++) nodirs |= x.pd->cross[c].sign == PD_UNSET_ORIENTATION;
  CHECK(ex_same(x, q, 0), "not the sum of the diagrams along these edges");
  nodirs = 0;
  ex_free(x);
  pd_code_free(&q);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  const char *d = vd_diff(A, sa);
  CHECK(!d, "the first argument changed: %s", d);
  d = vd_diff(B, sb);
  CHECK(!d, "the second argument changed: %s", d);
  vd_free(sa); vd_free(sb); vd_free(A); vd_free(B);
}
static void t_sum0(void) {
  pd_code_t *A = vh_int(0, 3) ? some(1, 8, 3) : pd_build_unknot(0), *U = pd_build_unknot(0);
  int sw = (int)vh_int(0, 1);
  pd_idx_t e = (pd_idx_t)vh_int(0, A->nedges - 1);
  vh_case("pd_connect_sum"); if (A->ncross) vd_add("A", A); vh_add("and the diagram without crossings, edge %u, %s\n", e, sw ? "second" : "first"); vh_go(1);
  long live = vh_live;
  pd_code_t *q = sw ? pd_connect_sum(A, e, U, 0) : pd_connect_sum(U, 0, A, e);
  CHECK(q, "no diagram");
  okpd("the sum", q);
  if (A->ncross) {
    ex x = ex_of(A);
    for (pd_idx_t c = 0; c < A->ncross; c++) nodirs |= A->cross[c].sign == PD_UNSET_ORIENTATION;
    CHECK(ex_same(x, q, 0), "not the other diagram");
    nodirs = 0; ex_free(x);
  } else CHECK(q->ncross == 0, "crossings");
  pd_code_free(&q);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  pd_code_free(&U);
  if (A->ncross) vd_free(A); else pd_code_free(&A);
}
static void t_r3(void) {
  pd_code_t *p = some(3, vh_int(0, 2) ? 7 : 13, 3), *sv = vd_copy(p);
  for (pd_idx_t f = 0; f < p->nfaces; f++) {
    vh_case("pd_R3_triangle_flip"); vd_add("pd", p); vh_add("face %u\n", f); vh_go(p->face[f].nedges == 3);
    long live = vh_live;
    if (p->face[f].nedges == 3) {
      pd_idx_t *e = p->face[f].edge, c[3];
      for (int k = 0; k < 3; k++) c[k] = p->face[f].orient[k] == PD_POS_ORIENTATION ? p->edge[e[k]].head : p->edge[e[k]].tail;
      if (c[0] == c[1] || c[1] == c[2] || c[0] == c[2]) continue;
      pd_code_t *q = pd_R3_triangle_flip(p, f);
      CHECK(q, "no diagram");
      okpd("the result", q);
      CHECK(q->ncomps == p->ncomps, "%u components", q->ncomps);
      /* every strand through the triangle meets its two crossings in the other order */
      ex a = ex_of(p);
      for (int k = 0; k < 3; k++) {
        pd_edge_t m = p->edge[e[k]];
        int ti = (m.tailpos + 2) % 4, ho = (m.headpos + 2) % 4;
        pd_idx_t before = p->cross[m.tail].edge[ti], after = p->cross[m.head].edge[ho];
        a.pd->cross[m.head].edge[m.headpos] = before; a.pd->edge[before].head = m.head; a.pd->edge[before].headpos = m.headpos;
        a.pd->cross[m.head].edge[ho] = e[k]; a.pd->edge[e[k]].tail = m.head; a.pd->edge[e[k]].tailpos = (pd_pos_t)ho;
        a.pd->cross[m.tail].edge[ti] = e[k]; a.pd->edge[e[k]].head = m.tail; a.pd->edge[e[k]].headpos = (pd_pos_t)ti;
        a.pd->cross[m.tail].edge[m.tailpos] = after; a.pd->edge[after].tail = m.tail; a.pd->edge[after].tailpos = m.tailpos;
      }
      CHECK(ex_same(a, q, 0), "not the diagram with the triangle turned over");
      ex_free(a);
      pd_code_free(&q);
    } else {
      pd_code_t *q = pd_R3_triangle_flip(p, f);
      CHECK(!q, "a face that is no triangle is accepted");
    }
    CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
    const char *d = vd_diff(p, sv);
    CHECK(!d, "the argument changed: %s", d);
  }
  vd_free(sv); vd_free(p);
}
static void t_reor(void) {
  pd_code_t *p = some(1, 12, 4), *sv = vd_copy(p);
  pd_idx_t c = (pd_idx_t)vh_int(0, p->ncomps - 1);
  vh_case("pd_reorient_component"); vd_add("pd", p); vh_add("component %u\n", c); vh_go(1);
  long live = vh_live;
  if (vh_int(0, 4) == 0) {
    pd_reorient_component(p, c, PD_POS_ORIENTATION);
    const char *d = vd_diff(p, sv);
    CHECK(!d, "changed without being asked to: %s", d);
  }
  pd_reorient_component(p, c, PD_NEG_ORIENTATION);
  pd_regenerate_hash(p);
  okpd("the result", p);
  ex a = ex_of(sv);
  for (pd_idx_t k = 0; k < sv->comp[c].nedges; k++) {
    pd_edge_t *e = &a.pd->edge[sv->comp[c].edge[k]], s = *e;
    e->head = s.tail; e->headpos = s.tailpos; e->tail = s.head; e->tailpos = s.headpos;
  }
  for (pd_idx_t x = 0; x < sv->ncross; x++) {
    int t0 = a.tag[sv->cross[x].edge[0]] == sv->comp[c].tag, t1 = a.tag[sv->cross[x].edge[1]] == sv->comp[c].tag;
    if (t0 != t1 && a.pd->cross[x].sign < 2) a.pd->cross[x].sign ^= 1;
  }
  CHECK(ex_same(a, p, 1), "not the diagram with that component reversed");
  ex_free(a);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  vd_free(p);
  p = vd_copy(sv);
  pd_idx_t ofs = (pd_idx_t)vh_int(0, 2 * p->comp[c].nedges);
  vh_case("pd_renumber_component"); vd_add("pd", p); vh_add("component %u by %u\n", c, ofs); vh_go(1);
  live = vh_live;
  pd_renumber_component(p, c, ofs);
  pd_regenerate_hash(p);
  okpd("the result", p);
  a = ex_of(sv);
  CHECK(ex_same(a, p, 1), "not the same diagram");
  pd_idx_t *mp = malloc(sv->nedges * sizeof *mp);
  int moved = 0;
  for (int dir = 0; dir < 2 && !moved; dir++) { /* every number of the component is shifted by the offset (forwards or backwards) */
    for (pd_idx_t e = 0; e < sv->nedges; e++) mp[e] = e;
    for (pd_idx_t k = 0, m = sv->comp[c].nedges; k < m; k++) mp[sv->comp[c].edge[k]] = sv->comp[c].edge[(k + (dir ? ofs % m : m - ofs % m)) % m];
    moved = 1;
    for (pd_idx_t x = 0; x < sv->ncross && moved; x++) { /* the crossing with the new numbers is there, up to rotation */
      int hit = 0;
      for (pd_idx_t y = 0; y < p->ncross && !hit; y++) for (int r = 0; r < 4 && !hit; r++) { hit = p->cross[y].sign == sv->cross[x].sign; for (int k = 0; k < 4; k++) hit &= p->cross[y].edge[(k + r) % 4] == mp[sv->cross[x].edge[k]]; }
      moved = hit;
    }
  }
  CHECK(moved, "the edges of the component are not renumbered by the offset");
  free(mp);
  ex_free(a);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  vd_free(sv); vd_free(p);
}
static void t_split(void) {
  int k = (int)vh_int(1, 4);
  pd_code_t *p[4]; pd_tag_t ct[4]; pd_idx_t nx = 0, ne = 0, nk = 0; char t = 'A';
  vh_case("pd_split_diagram");
  for (int i = 0; i < k; i++) {
    p[i] = vh_int(0, 4) ? some(1, 6, 3) : NULL;
    if (p[i]) { for (pd_idx_t c = 0; c < p[i]->ncomps; c++) p[i]->comp[c].tag = t++; nx += p[i]->ncross; ne += p[i]->nedges; nk += p[i]->ncomps; vd_add("piece", p[i]); }
    else { ct[i] = t++; ne++; nk++; vh_add("a circle, tag %c\n", ct[i]); }
  }
  vh_go(1);
  long live = vh_live;
  pd_code_t *U = pd_code_new(nx + (pd_idx_t)k + 4);
  U->ncross = nx; U->nedges = ne; U->ncomps = 0; U->nfaces = 0;
  int *ep = calloc(ne + 1, sizeof(int)), *xp = calloc(nx + 1, sizeof(int));
  for (pd_idx_t i = 0; i < ne; i++) { int j = (int)vh_int(0, i); ep[i] = ep[j]; ep[j] = (int)i; }
  for (pd_idx_t i = 0; i < nx; i++) { int j = (int)vh_int(0, i); xp[i] = xp[j]; xp[j] = (int)i; }
  pd_idx_t e0 = 0, x0 = 0;
  for (int i = 0; i < k; i++) {
    if (!p[i]) {
      U->edge[ep[e0]] = (pd_edge_t){.head = PD_UNSET_IDX, .tail = PD_UNSET_IDX, .headpos = PD_UNSET_POS, .tailpos = PD_UNSET_POS};
      pd_component_t *c = &U->comp[U->ncomps++];
      c->nedges = 1; c->tag = ct[i]; c->edge = vd_ialloc(1); c->edge[0] = ep[e0]; e0++;
      continue;
    }
    for (pd_idx_t c = 0; c < p[i]->ncross; c++) { U->cross[xp[x0 + c]] = p[i]->cross[c]; for (int s = 0; s < 4; s++) U->cross[xp[x0 + c]].edge[s] = ep[e0 + p[i]->cross[c].edge[s]]; }
    for (pd_idx_t e = 0; e < p[i]->nedges; e++) { pd_edge_t w = p[i]->edge[e]; w.head = xp[x0 + w.head]; w.tail = xp[x0 + w.tail]; U->edge[ep[e0 + e]] = w; }
    for (pd_idx_t c = 0; c < p[i]->ncomps; c++) {
      pd_component_t *d = &U->comp[U->ncomps++];
      d->nedges = p[i]->comp[c].nedges; d->tag = p[i]->comp[c].tag; d->edge = vd_ialloc((int)d->nedges);
      pd_idx_t r = (pd_idx_t)vh_int(0, d->nedges - 1);
      for (pd_idx_t s = 0; s < d->nedges; s++) d->edge[s] = ep[e0 + p[i]->comp[c].edge[(s + r) % d->nedges]];
    }
    e0 += p[i]->nedges; x0 += p[i]->ncross;
  }
  for (pd_idx_t c = 0; c < U->ncomps; c++) { pd_idx_t d = (pd_idx_t)vh_int(0, c); pd_component_t s = U->comp[c]; U->comp[c] = U->comp[d]; U->comp[d] = s; }
  pd_code_t **out = NULL;
  pd_idx_t n = pd_split_diagram(U, &out);
  CHECK((int)n == k, "%u pieces, there are %d", n, k);
  for (pd_idx_t o = 0; o < n; o++) {
    okpd("a piece", out[o]);
    int hit = -1;
    for (int i = 0; i < k && hit < 0; i++) {
      if (!p[i]) { if (ct[i] && unknot0(out[o], ct[i])) { hit = i; ct[i] = 0; } }
      else { ex x = ex_of(p[i]); if (ex_same(x, out[o], 1)) hit = i; ex_free(x); }
    }
    CHECK(hit >= 0, "piece %u is none of the diagrams put in", o);
    pd_code_free(&out[o]);
  }
  free(out); free(ep); free(xp);
  pd_code_free(&U);
  CHECK(vh_live == live, "memory kept: %ld blocks", vh_live - live);
  for (int i = 0; i < k; i++) if (p[i]) vd_free(p[i]);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_r1(); t_r1add(); t_r2(); t_r2add(); t_sum(); t_sum0(); t_r3(); t_reor(); t_split(); }
  return vh_done();
}
