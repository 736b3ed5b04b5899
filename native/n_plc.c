/* Executable contracts: storage of curves (create, copy, free, add, drop, colours, hidden vertices). */
#include "vp.h"
static void t_new(void) {
  int nc = vh_int(1, 6), nv[6], cc[6]; bool op[6];
  vh_case("plc_new"); vh_add("nc %d", nc);
  for (int i = 0; i < nc; i++) { nv[i] = vh_int(1, 9); op[i] = vh_int(0, 1); cc[i] = vh_int(0, 2) ? vh_int(0, nv[i]) : 0; vh_add(" (%d %d %d)", nv[i], op[i], cc[i]); }
  vh_go(1);
  long l0 = vh_live;
  plCurve *L = plc_new(nc, nv, op, cc);
  CHECK(L && L->nc == nc && L->cp, "components");
  CHECK(!L->cst && !L->quant && !L->G, "constraints, quantifiers or group not empty");
  for (int i = 0; i < nc; i++) {
    CHECK(L->cp[i].nv == nv[i] && L->cp[i].open == op[i] && L->cp[i].cc == cc[i], "component %d: shape", i);
    for (int j = -1; j <= nv[i]; j++) for (int k = 0; k < 3; k++) { CHECK(L->cp[i].vt[j].c[k] == 0, "component %d vertex %d not zero", i, j); L->cp[i].vt[j].c[k] = i + j; }
    for (int j = 0; j < cc[i]; j++) { CHECK(L->cp[i].clr[j].r == 0 && L->cp[i].clr[j].alpha == 0, "colour"); L->cp[i].clr[j].r = j; L->cp[i].clr[j].alpha = i; }
  }
  for (int i = 0; i < nc; i++) { for (int j = -1; j <= nv[i]; j++) CHECK(L->cp[i].vt[j].c[2] == i + j, "buffers overlap"); for (int j = 0; j < cc[i]; j++) CHECK(L->cp[i].clr[j].alpha == i, "buffers overlap"); }
  vh_set_fn("plc_free");
  plc_free(L);
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
}
static void scribble(plCurve *L) {
  for (int i = 0; i < L->nc; i++) {
    for (int j = -1; j <= L->cp[i].nv; j++) L->cp[i].vt[j] = vp_vec(9);
    for (int j = 0; j < L->cp[i].cc; j++) L->cp[i].clr[j] = vp_col();
  }
  for (plc_constraint *c = L->cst; c; c = c->next) c->num_verts += 3, c->vect[0] = vp_vec(2), c->vect[1] = vp_vec(3), c->cmp++;
}
static void t_copy(void) {
  plCurve *L = vp_rand(5, 9, VP_QUANT | VP_NOWRAP);
  vp_snap s; vp_take(L, &s);
  vh_case("plc_copy"); vp_desc(L); vh_go(1);
  long l0 = vh_live;
  plCurve *c = plc_copy(L);
  CHECK(c && c != L, "not a new curve");
  const char *d = vp_diff(c, &s, 31);
  CHECK(!d, "copy differs: %s", d);
  CHECK(!c->quant && !c->G, "quantifiers or group of the copy");
  if (vh_int(0, 1)) { scribble(c); d = vp_diff(L, &s, 63); CHECK(!d, "writing the copy changed the original: %s", d); plc_free(c); d = vp_diff(L, &s, 63); CHECK(!d, "freeing the copy changed the original: %s", d); CHECK(vh_live == l0, "%ld blocks left", vh_live - l0); vp_free(L); }
  else { d = vp_diff(L, &s, 63); CHECK(!d, "original changed: %s", d); scribble(L); for (plc_constraint *q = L->cst; q; q = q->next) q->cmp--; vp_free(L); d = vp_diff(c, &s, 31); CHECK(!d, "writing the original changed the copy: %s", d); plc_free(c); }
  vp_drop(&s);
}
static void t_free(void) {
  plc_free(NULL);
  long l0 = vh_live;
  plCurve *L = vp_rand(5, 9, VP_QUANT | VP_NULLCLR);
  vh_case("plc_free"); vp_desc(L); vh_go(1);
  if (vh_int(0, 9) == 0) { int i = vh_int(0, L->nc - 1); free(L->cp[i].vt - 1); L->cp[i].vt = NULL; }
  plc_free(L);
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
}
static void t_wrap(void) {
  plCurve *L = vp_rand(4, 8, VP_NOWRAP);
  vp_snap s; vp_take(L, &s);
  for (int i = 0; i < L->nc; i++) if (s.nv[i] < 3) s.open[i] = 1;
  vh_case("plc_fix_wrap"); vp_desc(L); vh_go(1);
  plc_fix_wrap(L);
  const char *d = vp_diff(L, &s, 1 | 2 | 8 | 16);
  CHECK(!d, "%s", d);
  d = vp_wrapped(L);
  CHECK(!d, "%s", d);
  vp_drop(&s); vp_free(L);
}
/* a history of edits against a list of component records */
typedef struct { int nv, cc, open; plc_vector vt[12]; plc_color clr[14]; } rec;
static void t_edit(void) {
  long l0 = vh_live;
  int fl = VP_NOCST;
  plCurve *L;
  if (vh_int(0, 1)) { int nv[3], cc[3]; bool op[3]; int nc = vh_int(1, 3); for (int i = 0; i < nc; i++) nv[i] = vh_int(1, 6), cc[i] = vh_int(0, nv[i]), op[i] = vh_int(0, 1); L = plc_new(nc, nv, op, cc); for (int i = 0; i < nc; i++) for (int j = 0; j < nv[i]; j++) L->cp[i].vt[j] = vp_vec(3); plc_fix_wrap(L); }
  else L = vp_rand(3, 8, fl);
  rec m[16]; int nc = L->nc;
  for (int i = 0; i < nc; i++) { m[i].nv = L->cp[i].nv; m[i].cc = L->cp[i].cc; m[i].open = L->cp[i].open; for (int j = 0; j < m[i].nv; j++) m[i].vt[j] = L->cp[i].vt[j]; for (int j = 0; j < m[i].cc; j++) m[i].clr[j] = L->cp[i].clr[j]; }
  vh_case("plc_add_component"); vp_desc(L);
  int ops = vh_int(1, 8);
  for (int o = 0; o < ops; o++) {
    int op = vh_int(0, 4);
    if (op == 0 && nc < 10) {
      int at = vh_int(0, nc), nv = vh_int(1, 8), open = vh_int(0, 1), cc = vh_int(0, 2) ? vh_int(0, nv) : 0;
      rec n; n.nv = nv; n.cc = cc; n.open = open || nv < 3;
      plc_vector *vt = malloc(nv * sizeof *vt); plc_color *clr = cc || vh_int(0, 1) ? malloc(cc * sizeof *clr + 1) : NULL;
      for (int j = 0; j < nv; j++) n.vt[j] = vt[j] = vp_vec(5);
      for (int j = 0; j < cc; j++) n.clr[j] = clr[j] = vp_col();
      vh_set_fn("plc_add_component"); vh_add("add at %d nv %d open %d cc %d clr %s\n", at, nv, open, cc, clr ? "given" : "NULL");
      plc_add_component(L, at, nv, open, cc, vt, clr);
      for (int j = 0; j < nv; j++) CHECK(vp_same(&vt[j], &n.vt[j], sizeof *vt), "argument changed");
      free(vt); free(clr);
      memmove(m + at + 1, m + at, (nc - at) * sizeof(rec)); m[at] = n; nc++;
    } else if (op == 1 && nc > 1) {
      int at = vh_int(0, nc - 1);
      vh_set_fn("plc_drop_component"); vh_add("drop %d\n", at);
      plc_drop_component(L, at);
      memmove(m + at, m + at + 1, (nc - at - 1) * sizeof(rec)); nc--;
    } else if (op == 2) {
      plc_color c = vp_col();
      vh_set_fn("plc_set_color"); vh_add("set colour\n");
      plc_set_color(L, c);
      for (int i = 0; i < nc; i++) for (int j = 0; j < m[i].cc; j++) m[i].clr[j] = c;
    } else if (op == 3) {
      int at = vh_int(0, nc - 1), cc = vh_int(0, 3) ? vh_int(0, m[at].nv) : 0, k = m[at].cc;
      vh_set_fn("plc_resize_colorbuf"); vh_add("resize colours of %d to %d\n", at, cc);
      plc_resize_colorbuf(L, at, cc);
      CHECK(L->cp[at].cc == cc, "cc");
      plc_color z = {0, 0, 0, 0};
      for (int j = k; j < cc; j++) {
        if (k == 0) m[at].clr[j] = z;
        else if (k == 1) m[at].clr[j] = m[at].clr[0];
        else m[at].clr[j] = L->cp[at].clr[j] = vp_col(); /* unspecified, but owned */
      }
      m[at].cc = cc;
    } else if (op == 4) {
      plCurve *c = plc_copy(L);
      vh_set_fn("plc_copy"); vh_add("replace by a copy\n");
      plc_free(L); L = c;
    }
    CHECK(L->nc == nc, "%d components instead of %d", L->nc, nc);
    for (int i = 0; i < nc; i++) {
      plc_strand *c = &L->cp[i];
      CHECK(c->nv == m[i].nv && c->open == m[i].open && c->cc == m[i].cc, "component %d: shape (%d %d %d) instead of (%d %d %d)", i, c->nv, c->open, c->cc, m[i].nv, m[i].open, m[i].cc);
      for (int j = 0; j < c->nv; j++) CHECK(vp_same(&c->vt[j], &m[i].vt[j], sizeof(plc_vector)), "component %d vertex %d", i, j);
      for (int j = 0; j < c->cc; j++) CHECK(vp_same(&c->clr[j], &m[i].clr[j], sizeof(plc_color)), "component %d colour %d", i, j);
    }
    const char *d = vp_wrapped(L);
    CHECK(!d, "%s", d);
  }
  vh_go(1);
  vh_set_fn("plc_free");
  plc_free(L);
  CHECK(vh_live == l0, "%ld blocks left", vh_live - l0);
}
int main(int argc, char **argv) {
  vh_init(argc, argv);
  while (vh_frac() < 1) { t_new(); t_copy(); t_free(); t_wrap(); t_edit(); t_edit(); }
  return vh_done();
}
