/* Executable contracts: strands at a crossing, traversal, alternation, linking numbers, interlacing. */
#include "vd.h"
#include "pd_invariants.h"
static void t_one(int minx, int maxx) {
  int lk2[4][4];
  memset(lk2, 0, sizeof lk2);
  pd_code_t *pd = vd_random(minx, maxx, 4, (int)vh_int(0, 2), lk2);
  /* sometimes forget or randomise signs */
  int mode = (int)vh_int(0, 3), geo = 1;
  if (mode == 1) { geo = 0; for (pd_idx_t i = 0; i < pd->ncross; i++) pd->cross[i].sign = vh_int(0, 1); }
  if (mode == 2) { geo = 0; for (pd_idx_t i = 0; i < pd->ncross; i++) pd->cross[i].sign = vh_int(0, 2); }
  if (mode == 3) { /* alternating: over first along comp 0, propagate */
    geo = 0;
    int ok = 1;
    for (pd_idx_t i = 0; i < pd->ncross; i++) pd->cross[i].sign = 2;
    for (int rounds = 0; rounds < 400 && ok; rounds++)
      for (pd_idx_t e = 0; e < pd->nedges; e++) {
        /* helper: over parity known at tail? */
        pd_idx_t t = pd->edge[e].tail, h = pd->edge[e].head;
#define IN(c, p) (pd->edge[pd->cross[c].edge[p]].head == (c) && pd->edge[pd->cross[c].edge[p]].headpos == (p))
#define OVEREVEN(c) ((IN(c, 0) == IN(c, 1)) == (pd->cross[c].sign == 1))
        if (rounds == 0 && e == 0 && pd->cross[t].sign == 2) pd->cross[t].sign = vh_int(0, 1);
        if (pd->cross[t].sign != 2 && pd->cross[h].sign == 2) {
          int fromover = OVEREVEN(t) == (pd->edge[e].tailpos % 2 == 0);
          int wanteven = (pd->edge[e].headpos % 2 == 0) == !fromover;
          pd->cross[h].sign = ((IN(h, 0) == IN(h, 1)) == wanteven) ? 1 : 0;
        } else if (pd->cross[h].sign != 2 && pd->cross[t].sign == 2) {
          int toover = OVEREVEN(h) == (pd->edge[e].headpos % 2 == 0);
          int wanteven = (pd->edge[e].tailpos % 2 == 0) == !toover;
          pd->cross[t].sign = ((IN(t, 0) == IN(t, 1)) == wanteven) ? 1 : 0;
        }
      }
    if (vh_int(0, 2) == 0) { pd_idx_t f = vh_int(0, pd->ncross - 1); if (pd->cross[f].sign < 2) pd->cross[f].sign = 1 - pd->cross[f].sign; }
  }
  pd_code_t *sv = vd_copy(pd);
  int unset = 0;
  for (pd_idx_t i = 0; i < pd->ncross; i++) unset |= pd->cross[i].sign == 2;
  for (pd_idx_t c = 0; c < pd->ncross; c++) {
    pd_idx_t A = IN(c, 0) ? 0 : 2, B = IN(c, 1) ? 1 : 3, oi, ui;
    /* right-hand rule: at a positive (or unset) crossing the under strand comes in one slot after the over strand */
    if ((pd->cross[c].sign != 0) == (B == (A + 1) % 4)) oi = A, ui = B; else oi = B, ui = A;
    pd_idx_t i = 77, o = 77;
    vh_case("pd_overstrand_pos"); vh_add("crossing %u ", c); vd_add("pd", pd); vh_go(c == 0);
    pd_overstrand_pos(pd, c, &i, &o);
    CHECK(i == oi && o == (oi + 2) % 4, "got in %u out %u, want in %u", i, o, oi);
    vh_set_fn("pd_understrand_pos");
    pd_understrand_pos(pd, c, &i, &o);
    CHECK(i == ui && o == (ui + 2) % 4, "got in %u out %u, want in %u", i, o, ui);
    vh_set_fn("pd_overstrand");
    pd_overstrand(pd, c, &i, &o);
    CHECK(i == pd->cross[c].edge[oi] && o == pd->cross[c].edge[(oi + 2) % 4], "edges %u %u", i, o);
    vh_set_fn("pd_understrand");
    pd_understrand(pd, c, &i, &o);
    CHECK(i == pd->cross[c].edge[ui] && o == pd->cross[c].edge[(ui + 2) % 4], "edges %u %u", i, o);
  }
  vh_case("pd_next_edge"); vd_add("pd", pd); vh_go(1);
  for (pd_idx_t c = 0; c < pd->ncomps; c++)
    for (pd_idx_t j = 0; j < pd->comp[c].nedges; j++) {
      pd_idx_t e = pd->comp[c].edge[j], f = pd->comp[c].edge[(j + 1) % pd->comp[c].nedges];
      vh_set_fn("pd_next_edge");
      CHECK(pd_next_edge(pd, e) == f, "next of edge %u is %u, want %u", e, pd_next_edge(pd, e), f);
      vh_set_fn("pd_previous_edge");
      CHECK(pd_previous_edge(pd, f) == e, "previous of edge %u is %u, want %u", f, pd_previous_edge(pd, f), e);
    }
  if (!unset) {
    int alt = 1;
    for (pd_idx_t e = 0; e < pd->nedges; e++) {
      pd_idx_t t = pd->edge[e].tail, h = pd->edge[e].head;
      if ((OVEREVEN(t) == (pd->edge[e].tailpos % 2 == 0)) == (OVEREVEN(h) == (pd->edge[e].headpos % 2 == 0))) alt = 0;
    }
    vh_case("pd_is_alternating"); vd_add("pd", pd); vh_go(1);
    CHECK(pd_is_alternating(pd) == alt, "want %d", alt);
    for (pd_idx_t c = 0; c < pd->ncomps; c++)
      for (pd_idx_t d = 0; d < pd->ncomps; d++) {
        if (c == d) continue;
        int s = 0, n = 0;
        /* independent count: over all crossings */
        for (pd_idx_t x = 0; x < pd->ncross; x++) {
          pd_idx_t a = 0, b = 0;
          for (pd_idx_t q = 0; q < pd->ncomps; q++)
            for (pd_idx_t j = 0; j < pd->comp[q].nedges; j++) {
              if (pd->comp[q].edge[j] == pd->cross[x].edge[0]) a = q;
              if (pd->comp[q].edge[j] == pd->cross[x].edge[1]) b = q;
            }
          if ((a == c && b == d) || (a == d && b == c)) n++, s += pd->cross[x].sign == 1 ? 1 : -1;
        }
        vh_case("pd_linking_number"); vh_add("components %u %u ", c, d); vd_add("pd", pd); vh_go(1);
        int r = pd_linking_number(pd, c, d);
        CHECK(r == s / 2, "got %d, want %d/2", r, s);
        if (geo) CHECK(2 * r == lk2[c][d], "got %d, the space curves have %d/2", r, lk2[c][d]);
        vh_set_fn("pd_unsigned_linking_number");
        CHECK(pd_unsigned_linking_number(pd, c, d) == (unsigned)(n / 2), "want %d/2", n);
      }
  }
  /* interlaced pairs of self crossings per component */
  vh_case("pd_interlaced_crossings_unsigned"); vd_add("pd", pd); vh_go(1);
  unsigned *u = pd_interlaced_crossings_unsigned(pd);
  vh_set_fn("pd_interlaced_crossings");
  int *sg = pd_interlaced_crossings(pd);
  for (pd_idx_t q = 0; q < pd->ncomps; q++) {
    int n = pd->comp[q].nedges, cnt = 0, scnt = 0, pos[64][2], k[64];
    memset(k, 0, sizeof k);
    for (int j = 0; j < n; j++) { pd_idx_t x = pd->edge[pd->comp[q].edge[j]].head; if (k[x] < 2) pos[x][k[x]++] = j; }
    for (pd_idx_t x = 0; x < pd->ncross; x++)
      for (pd_idx_t y = 0; y < x; y++)
        if (k[x] == 2 && k[y] == 2) {
          int in0 = pos[y][0] > pos[x][0] && pos[y][0] < pos[x][1], in1 = pos[y][1] > pos[x][0] && pos[y][1] < pos[x][1];
          if (in0 != in1) {
            cnt++;
            int s[2], z[2] = {(int)x, (int)y};
            for (int w = 0; w < 2; w++) { /* outgoing strands in ccw order e1 -> e2 */
              pd_idx_t c = z[w], A = IN(c, 0) ? 2 : 0, B = IN(c, 1) ? 3 : 1;
              pd_idx_t e1 = B == (A + 1) % 4 ? A : B, e2 = B == (A + 1) % 4 ? B : A;
              s[w] = pd->cross[c].edge[e2] > pd->cross[c].edge[e1] ? 1 : -1;
            }
            scnt += s[0] * s[1];
          }
        }
    vh_set_fn("pd_interlaced_crossings_unsigned");
    CHECK(u[q] == (unsigned)cnt, "component %u: %u, want %d", q, u[q], cnt);
    vh_set_fn("pd_interlaced_crossings");
    CHECK(sg[q] == scnt, "component %u: %d, want %d", q, sg[q], scnt);
  }
  free(u);
  free(sg);
  const char *d = vd_diff(pd, sv);
  CHECK(!d, "a query changed the diagram: %s", d);
  vd_free(pd);
  vd_free(sv);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_one(1, 6); t_one(2, 24); }
  return vh_done();
}
