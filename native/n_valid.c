/* Executable contracts: the validity checks accept every well-formed diagram and reject every malformed one. */
#include "vd.h"
bool pd_cross_ok(pd_code_t *), pd_edges_ok(pd_code_t *), pd_faces_ok(pd_code_t *), pd_comps_ok(pd_code_t *);

/* 1: well-formed part; reads nothing outside the diagram */
static int o_cross(const pd_code_t *pd) {
  if (!pd->ncross) return 1;
  int r = 1;
  for (pd_idx_t i = 0; i < pd->ncross; i++) {
    if (pd->cross[i].sign > 2) return 0;
    for (int k = 0; k < 4; k++) if (pd->cross[i].edge[k] >= pd->nedges) return 0;
  }
  for (pd_idx_t e = 0; e < pd->nedges; e++) {
    int s = 0;
    for (pd_idx_t i = 0; i < pd->ncross; i++) for (int k = 0; k < 4; k++) s += pd->cross[i].edge[k] == e;
    const pd_edge_t *E = &pd->edge[e];
    if (s == 0 && E->head == PD_UNSET_IDX && E->tail == PD_UNSET_IDX && E->headpos == PD_UNSET_POS && E->tailpos == PD_UNSET_POS) continue;
    if (s != 2) r = 0;
  }
  for (pd_idx_t i = 1; i < pd->ncross; i++) if (vd_ccmp(&pd->cross[i - 1], &pd->cross[i]) > 0) r = 0;
  return r;
}
static int o_edges(const pd_code_t *pd) {
  if (pd->ncross && pd->nedges != 2 * pd->ncross) return 0;
  for (pd_idx_t e = 0; e < pd->nedges; e++) {
    const pd_edge_t *E = &pd->edge[e];
    if (!pd->ncross) {
      if (E->head != PD_UNSET_IDX || E->tail != PD_UNSET_IDX || E->headpos != PD_UNSET_POS || E->tailpos != PD_UNSET_POS) return 0;
      continue;
    }
    if (E->head >= pd->ncross || E->tail >= pd->ncross || E->headpos > 3 || E->tailpos > 3) return 0;
    if (pd->cross[E->head].edge[E->headpos] != e || pd->cross[E->tail].edge[E->tailpos] != e) return 0;
    int np = E->headpos ^ 2, pp = E->tailpos ^ 2;
    const pd_edge_t *N = &pd->edge[pd->cross[E->head].edge[np]], *Q = &pd->edge[pd->cross[E->tail].edge[pp]];
    if (N->tail != E->head || N->tailpos != np || Q->head != E->tail || Q->headpos != pp) return 0;
  }
  return 1;
}
static int o_faces(const pd_code_t *pd) {
  if (pd->nfaces > pd->MAXFACES) return 0;
  if (!pd->ncross) {
    if (pd->nfaces != 2) return 0;
    for (int f = 0; f < 2; f++) if (pd->face[f].nedges != 1 || pd->face[f].edge[0] != 0) return 0;
    return 1;
  }
  for (pd_idx_t f = 0; f < pd->nfaces; f++) {
    const pd_face_t *F = &pd->face[f];
    if (!F->nedges) return 0;
    for (pd_idx_t k = 0; k < F->nedges; k++) if (F->edge[k] >= pd->nedges || F->orient[k] > 1 || F->edge[k] < F->edge[0]) return 0;
    for (pd_idx_t k = 0; k < F->nedges; k++) {
      pd_idx_t a = F->edge[k], m = (k + 1) % F->nedges, b = F->edge[m];
      pd_idx_t h = F->orient[k] ? pd->edge[a].head : pd->edge[a].tail, hp = F->orient[k] ? pd->edge[a].headpos : pd->edge[a].tailpos;
      pd_idx_t t = F->orient[m] ? pd->edge[b].tail : pd->edge[b].head, tp = F->orient[m] ? pd->edge[b].tailpos : pd->edge[b].headpos;
      if (h != t || (tp + 1) % 4 != hp) return 0;
    }
  }
  for (pd_idx_t f = 1; f < pd->nfaces; f++) if (vd_fcmp(&pd->face[f - 1], &pd->face[f]) > 0) return 0;
  return 1;
}
static int o_comps(const pd_code_t *pd) {
  if (pd->ncomps > pd->MAXCOMPONENTS) return 0;
  if (!pd->ncross) return pd->ncomps == 1 && pd->comp[0].nedges == 1 && pd->comp[0].edge[0] == 0;
  pd_idx_t cnt = 0;
  for (pd_idx_t c = 0; c < pd->ncomps; c++)
    for (pd_idx_t k = 0; k < pd->comp[c].nedges; k++, cnt++) {
      pd_idx_t nx = pd->comp[c].edge[(k + 1) % pd->comp[c].nedges];
      if (pd->comp[c].edge[k] != cnt || cnt >= pd->nedges || nx >= pd->nedges) return 0;
      if (pd->edge[cnt].head != pd->edge[nx].tail || (pd->edge[cnt].headpos + 2) % 4 != pd->edge[nx].tailpos) return 0;
    }
  if (cnt != pd->nedges) return 0;
  for (pd_idx_t c = 0; c < pd->ncomps; c++) {
    if (pd->comp[c].tag < 'A') return 0;
    for (pd_idx_t d = 0; d < c; d++) if (pd->comp[c].tag == pd->comp[d].tag) return 0;
  }
  return 1;
}
static void judge(pd_code_t *pd, const char *how) {
  int w[4];
  /* one oracle reads through the others only where they hold */
  w[0] = o_cross(pd);
  w[1] = w[0] ? o_edges(pd) : -1;
  w[2] = w[0] && w[1] > 0 ? o_faces(pd) : -1;
  w[3] = w[0] && w[1] > 0 ? o_comps(pd) : -1;
  int all = w[0] > 0 && w[1] > 0 && w[2] > 0 && w[3] > 0;
  vh_case("pd_ok"); vh_add("%s\n", how); vd_add("pd", pd); vh_go(1);
  pd_code_t *sv = vd_copy(pd);
  long l0 = vh_live;
  bool r = pd_ok(pd);
  CHECK(r == (bool)all, "pd_ok says %d, the diagram is %s (%s)", r, all ? "well-formed" : "malformed", how);
  vh_set_fn("pd_cross_ok");
  CHECK(pd_cross_ok(pd) == (bool)w[0], "pd_cross_ok says %d", !w[0]);
  if (w[1] >= 0) { vh_set_fn("pd_edges_ok"); CHECK(pd_edges_ok(pd) == (bool)w[1], "pd_edges_ok says %d", !w[1]); }
  if (w[2] >= 0) { vh_set_fn("pd_faces_ok"); CHECK(pd_faces_ok(pd) == (bool)w[2], "pd_faces_ok says %d", !w[2]); }
  if (w[3] >= 0) { vh_set_fn("pd_comps_ok"); CHECK(pd_comps_ok(pd) == (bool)w[3], "pd_comps_ok says %d", !w[3]); }
  CHECK(vh_live == l0, "%ld blocks allocated by the checks were not released (%s)", vh_live - l0, how);
  const char *d = vd_diff(pd, sv);
  CHECK(!d, "a check changed the diagram: %s", d);
  vd_free(sv);
}
static pd_idx_t ridx(pd_code_t *pd) {
  switch (vh_int(0, 5)) {
  case 0: return PD_UNSET_IDX;
  case 1: return pd->nedges + (pd_idx_t)vh_int(0, 2);
  case 2: return (pd_idx_t)vh_int(0, 4000000000L);
  default: return (pd_idx_t)vh_int(0, pd->nedges);
  }
}
static int rpos(void) { return vh_int(0, 4) ? (int)vh_int(0, 3) : (int)vh_int(4, 255); }
static const char *corrupt(pd_code_t *pd) {
  pd_idx_t c = vh_int(0, pd->ncross - 1), e = vh_int(0, pd->nedges - 1), q = vh_int(0, pd->ncomps - 1), f = vh_int(0, pd->nfaces - 1);
  pd_idx_t c2 = vh_int(0, pd->ncross - 1), e2 = vh_int(0, pd->nedges - 1), f2 = vh_int(0, pd->nfaces - 1), q2 = vh_int(0, pd->ncomps - 1);
  pd_edge_t *E = &pd->edge[e];
  switch (vh_int(0, 33)) {
  case 0: pd->cross[c].edge[vh_int(0, 3)] = ridx(pd); return "crossing slot";
  case 1: pd->cross[c].sign = rpos(); return "crossing sign";
  case 2: { pd_crossing_t t = pd->cross[c]; pd->cross[c] = pd->cross[c2]; pd->cross[c2] = t; return "crossings exchanged"; }
  case 3: { /* exchanged consistently: only the order is wrong */
    pd_crossing_t t = pd->cross[c]; pd->cross[c] = pd->cross[c2]; pd->cross[c2] = t;
    for (pd_idx_t k = 0; k < pd->nedges; k++) {
      pd_edge_t *x = &pd->edge[k];
      x->head = x->head == c ? c2 : x->head == c2 ? c : x->head;
      x->tail = x->tail == c ? c2 : x->tail == c2 ? c : x->tail;
    }
    return "crossings exchanged, edges renamed"; }
  case 4: { /* rotated consistently */
    pd_crossing_t t = pd->cross[c];
    int r = (int)vh_int(1, 3);
    for (int k = 0; k < 4; k++) pd->cross[c].edge[k] = t.edge[(k + r) % 4];
    for (pd_idx_t k = 0; k < pd->nedges; k++) {
      pd_edge_t *x = &pd->edge[k];
      if (x->head == c) x->headpos = (x->headpos - r + 4) % 4;
      if (x->tail == c) x->tailpos = (x->tailpos - r + 4) % 4;
    }
    return "crossing rotated consistently"; }
  case 5: E->head = vh_int(0, 3) ? (pd_idx_t)vh_int(0, pd->ncross) : ridx(pd); return "edge head";
  case 6: E->tail = vh_int(0, 3) ? (pd_idx_t)vh_int(0, pd->ncross) : ridx(pd); return "edge tail";
  case 7: E->headpos = rpos(); return "edge headpos";
  case 8: E->tailpos = rpos(); return "edge tailpos";
  case 9: { pd_edge_t t = *E; E->head = t.tail; E->headpos = t.tailpos; E->tail = t.head; E->tailpos = t.headpos; return "edge reversed"; }
  case 10: { pd_edge_t t = *E; *E = pd->edge[e2]; pd->edge[e2] = t; return "edges exchanged"; }
  case 11: E->head = E->tail; E->headpos = E->tailpos; return "edge head = tail";
  case 12: pd->comp[q].edge[vh_int(0, pd->comp[q].nedges - 1)] = ridx(pd); return "component entry";
  case 13: pd->comp[q].nedges = vh_int(0, pd->comp[q].nedges); return "component shortened";
  case 14: pd->comp[q].tag = vh_int(0, 1) ? (char)vh_int(0, 127) : 'A' - 1; return "component tag";
  case 15: pd->comp[q].tag = pd->comp[q2].tag; return "component tag copied";
  case 16: { pd_component_t t = pd->comp[q]; pd->comp[q] = pd->comp[q2]; pd->comp[q2] = t; return "components exchanged"; }
  case 17: pd->ncomps = vh_int(0, pd->ncomps); return "component removed";
  case 18: pd->nfaces = vh_int(0, pd->nfaces); return "face removed";
  case 19: pd->face[f].edge[vh_int(0, pd->face[f].nedges - 1)] = ridx(pd); return "face entry";
  case 20: pd->face[f].orient[vh_int(0, pd->face[f].nedges - 1)] = vh_int(0, 3); return "face orientation";
  case 21: pd->face[f].nedges = vh_int(0, pd->face[f].nedges); return "face shortened";
  case 22: { pd_face_t t = pd->face[f]; pd->face[f] = pd->face[f2]; pd->face[f2] = t; return "faces exchanged"; }
  case 23: case 24: { /* face rotated */
    pd_face_t *F = &pd->face[f];
    pd_idx_t t = F->edge[0]; pd_or_t o = F->orient[0];
    for (pd_idx_t k = 0; k + 1 < F->nedges; k++) F->edge[k] = F->edge[k + 1], F->orient[k] = F->orient[k + 1];
    F->edge[F->nedges - 1] = t; F->orient[F->nedges - 1] = o;
    return "face rotated"; }
  case 25: pd->nedges = vh_int(0, pd->MAXEDGES); return "nedges";
  case 26: pd->ncross = vh_int(1, pd->ncross); return "ncross";
  case 27: pd->MAXFACES = pd->nfaces - 1; return "nfaces beyond capacity";
  case 28: pd->MAXCOMPONENTS = pd->ncomps - 1; return "ncomps beyond capacity";
  case 29: { /* one component lengthened */
    pd_component_t *C = &pd->comp[q];
    C->edge = realloc(C->edge, (C->nedges + 3) * sizeof(pd_idx_t));
    for (int k = 0; k < 3; k++) C->edge[C->nedges + k] = vh_int(0, 1) ? C->edge[C->nedges - 1 + k] + 1 : ridx(pd);
    C->nedges += vh_int(1, 3);
    return "component lengthened"; }
  case 30: { /* two components joined in one record */
    if (pd->ncomps < 2) return "nothing";
    pd_component_t *A = &pd->comp[0], *B = &pd->comp[1];
    A->edge = realloc(A->edge, (A->nedges + B->nedges) * sizeof(pd_idx_t));
    memcpy(A->edge + A->nedges, B->edge, B->nedges * sizeof(pd_idx_t));
    A->nedges += B->nedges;
    free(B->edge);
    for (pd_idx_t k = 1; k + 1 < pd->ncomps; k++) pd->comp[k] = pd->comp[k + 1];
    memset(&pd->comp[pd->ncomps - 1], 0, sizeof(pd_component_t));
    pd->ncomps--;
    return "components joined"; }
  case 31: { /* tags permuted and spread: stays well-formed */
    for (pd_idx_t k = 0; k < pd->ncomps; k++) pd->comp[k].tag = 'A' + (char)((k * 3 + q) % 20 + vh_int(0, 2) * 20);
    return "tags changed"; }
  case 32: for (pd_idx_t k = 0; k < pd->ncross; k++) pd->cross[k].sign = vh_int(0, 2); return "signs changed";
  default: { /* every edge of one component reversed in place, faces follow: numbering runs backwards */
    for (pd_idx_t k = 0; k < pd->comp[q].nedges; k++) {
      pd_idx_t x = pd->comp[q].edge[k];
      if (x >= pd->nedges) continue;
      pd_edge_t t = pd->edge[x];
      pd->edge[x] = (pd_edge_t){.head = t.tail, .headpos = t.tailpos, .tail = t.head, .tailpos = t.headpos};
      for (pd_idx_t g = 0; g < pd->nfaces; g++) for (pd_idx_t m = 0; m < pd->face[g].nedges; m++) if (pd->face[g].edge[m] == x) pd->face[g].orient[m] ^= 1;
    }
    return "component reversed"; }
  }
}
/* the diagram without crossings, and what may be wrong with it */
static void t_zero(void) {
  pd_code_t *pd = pd_code_new(2);
  pd->ncross = 0; pd->nedges = 1; pd->ncomps = 1; pd->nfaces = 2;
  pd->edge[0] = (pd_edge_t){.head = PD_UNSET_IDX, .tail = PD_UNSET_IDX, .headpos = PD_UNSET_POS, .tailpos = PD_UNSET_POS};
  pd->comp[0].nedges = 1; pd->comp[0].edge = vd_ialloc(1); pd->comp[0].tag = 'A';
  for (int f = 0; f < 2; f++) { pd->face[f].nedges = 1; pd->face[f].edge = vd_ialloc(1); pd->face[f].orient = calloc(1, 1); pd->face[f].orient[0] = !f; }
  judge(pd, "no crossings");
  const char *h = "";
  switch (vh_int(0, 12)) {
  case 0: pd->edge[0].head = vh_int(0, 3); h = "head"; break;
  case 1: pd->edge[0].tail = vh_int(0, 3); h = "tail"; break;
  case 2: pd->edge[0].headpos = vh_int(0, 6); h = "headpos"; break;
  case 3: pd->edge[0].tailpos = vh_int(0, 6); h = "tailpos"; break;
  case 4: pd->edge[0].headpos = pd->edge[0].tailpos = vh_int(0, 3); h = "both positions"; break;
  case 5: pd->ncomps = 0; h = "ncomps"; break;
  case 6: pd->comp[0].edge[0] = vh_int(0, 3); h = "component edge"; break;
  case 7: pd->nfaces = vh_int(0, 1); h = "nfaces"; break;
  case 8: pd->face[0].edge[0] = vh_int(0, 3); h = "face 0"; break;
  case 9: pd->face[1].edge[0] = vh_int(0, 3); h = "face 1"; break;
  case 10: pd->face[0].nedges = 0; h = "face 0 empty"; break;
  case 11: pd->face[1].nedges = 0; h = "face 1 empty"; break;
  default: pd->comp[0].nedges = 0; h = "component empty";
  }
  judge(pd, h);
  vd_free(pd);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) {
    t_zero();
    pd_code_t *pd = vd_random(1, vh_int(0, 4) ? 8 : 40, 4, (int)vh_int(0, 2), NULL);
    judge(pd, "generated");
    for (int k = 0; k < 20; k++) {
      pd_code_t *q = vd_copy(pd);
      const char *h = corrupt(q);
      char b[100];
      snprintf(b, 100, "%s", h);
      if (vh_int(0, 5) == 0 && q->ncross && q->nedges && q->ncomps && q->nfaces && q->nfaces <= q->MAXFACES && q->ncomps <= q->MAXCOMPONENTS) {
        int ok = 1;
        for (pd_idx_t i = 0; i < q->ncomps; i++) if (!q->comp[i].nedges) ok = 0;
        for (pd_idx_t i = 0; i < q->nfaces; i++) if (!q->face[i].nedges) ok = 0;
        if (ok) { h = corrupt(q); snprintf(b + strlen(b), 50, "; %s", h); }
      }
      judge(q, b);
      vd_free(q);
    }
    vd_free(pd);
  }
  return vh_done();
}
