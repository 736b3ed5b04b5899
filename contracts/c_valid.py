"""The validity checks (pdcode.c): each returns true exactly when the part it checks is well-formed."""
from common import *
from c_topo import slot, FAslot, FAcomp, opp, incoming, outgoing
from c_lookup import FAface, HALF
CONTRACTS = {}
UNI, UNP = M32 - 1, 4


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def stray(pd, e):
    x = pd.edge[e]
    return z3.And(x.head == UNI, x.tail == UNI, x.headpos == UNP, x.tailpos == UNP)


# ---- edges
def edge_wf(pd, e):
    x = pd.edge[e]
    n, p = slot(pd, x.head, opp(x.headpos)), slot(pd, x.tail, opp(x.tailpos))
    return z3.If(pd.ncross == 0, stray(pd, e), z3.And(
        x.head < pd.ncross, x.tail < pd.ncross, x.headpos < 4, x.tailpos < 4, slot(pd, x.head, x.headpos) == e, slot(pd, x.tail, x.tailpos) == e,
        pd.edge[n].tail == x.head, pd.edge[n].tailpos == opp(x.headpos), pd.edge[p].head == x.tail, pd.edge[p].headpos == opp(x.tailpos)))


EW_ = z3.Function('edgeWf', z3.IntSort(), z3.IntSort())     # 1: well-formed (an integer, so that it can be named)
EW = lambda e: EW_(zi(e)) == 1


def ew_def(c):
    e = z3.Int('we')
    return [z3.ForAll([e], EW_(e) == ite(edge_wf(c.pd, e), 1, 0), patterns=[EW_(e)])]


def edges_wf(pd, hi=None):
    return FA(0, pd.nedges if hi is None else hi, lambda e: EW(e), pats=[lambda e: EW_(e)])


C('pd_edges_ok', ['pd'], opts={'nomerge': True},
  requires=lambda c: wf_cross(c.pd) + wf_edge(c.pd) + [c.pd.ncross < HALF, FAslot(c.pd, lambda i, p: slot(c.pd, i, p) < c.pd.nedges)],
  ensures=lambda c: [('true iff well-formed', c.ret == z3.And(Or(c.pd.ncross == 0, c.pd.nedges == 2 * c.pd.ncross), edges_wf(c.pd)))], defs=ew_def,
  inv=lambda L: [('edges checked %s' % k, edges_wf(L.c.pd, x)) for k, x in L.ints] + [('term %s' % k, EW_(x) >= 0) for k, x in L.ints])

# ---- crossings
Cnt = z3.Function('slotCount', z3.IntSort(), z3.IntSort(), z3.IntSort())       # (k,e): slots of crossings 0..k-1 that hold e
Cnt1 = z3.Function("slotCount'", z3.IntSort(), z3.IntSort(), z3.IntSort())


def in4(pd, k, e, upto=4):
    return sum([z3.If(pd.cross[k].edge[q] == e, zi(1), zi(0)) for q in range(1, upto)], z3.If(pd.cross[k].edge[0] == e, zi(1), zi(0)))


def inp(pd, k, p, e):
    """slots 0..p-1 of crossing k that hold e"""
    return sum([z3.If(z3.And(q < p, pd.cross[k].edge[q] == e), zi(1), zi(0)) for q in range(1, 4)], z3.If(z3.And(0 < p, pd.cross[k].edge[0] == e), zi(1), zi(0)))


def cnt_def(c):
    k, e = z3.Ints('ck ce')
    return [z3.ForAll([k, e], z3.And(Cnt(k, e) == z3.If(k <= 0, zi(0), Cnt1(k - 1, e) + in4(c.pd, k - 1, e)), Cnt(k, e) == Cnt1(k, e), Cnt(k, e) >= 0, Imp(k >= 0, Cnt(k, e) <= 4 * k)), patterns=[Cnt(k, e)])]


def cross_le(pd, i, j):
    """crossing i does not come after crossing j"""
    a, b = pd.cross[i], pd.cross[j]
    less = z3.BoolVal(True)
    for k in (3, 2, 1, 0):
        less = z3.Or(a.edge[k] < b.edge[k], z3.And(a.edge[k] == b.edge[k], less))
    return less


def signs(pd, hi=None):
    return FA(0, pd.ncross if hi is None else hi, lambda i: pd.cross[i].sign <= 2)


def slots(pd, hi=None):
    i, p = z3.Ints('sc sp')
    return z3.ForAll([i, p], Imp(z3.And(0 <= i, i < (pd.ncross if hi is None else hi), 0 <= p, p < 4), slot(pd, i, p) < pd.nedges), patterns=[slot(pd, i, p)])


def twice(pd, hi=None):
    return FA(0, pd.nedges if hi is None else hi, lambda e: Or(Cnt(pd.ncross, e) == 2, z3.And(Cnt(pd.ncross, e) == 0, stray(pd, e))), pats=[lambda e: Cnt(pd.ncross, e)])


def sorted_cross(pd, hi=None):
    return FA(1, pd.ncross if hi is None else hi, lambda i: cross_le(pd, i - 1, i), pats=[lambda i: pd.cross[i].edge[0]])


def cross_wf(pd):
    return z3.And(signs(pd), slots(pd), twice(pd), sorted_cross(pd))


def cross_inv(L):
    pd = L.c.pd
    out = []
    for k, x in L.ints:
        out += [('signs %s' % k, signs(pd, x)), ('slots %s' % k, slots(pd, x)), ('twice %s' % k, twice(pd, x)), ('order %s' % k, sorted_cross(pd, x))]
        for ko, o in enumerate([o for o in L.objs if o.ct.k == 'int']):
            out += [('counts %s %s' % (k, ko), FA(0, pd.MAXEDGES, lambda e: o[e] == Cnt(x, e), pats=[lambda e: o[e]])),
                    ('zero %s %s' % (k, ko), FA(0, x, lambda e: o[e] == 0, pats=[lambda e: o[e]]))]
            for k2, y in L.outer:
                out += [('part counts %s %s %s' % (k, k2, ko), FA(0, pd.MAXEDGES, lambda e: o[e] == Cnt(y, e) + inp(pd, y, x, e), pats=[lambda e: o[e]])),
                        ('part slots %s %s' % (k, k2), FA(0, x, lambda p: slot(pd, y, p) < pd.nedges, pats=[lambda p: slot(pd, y, p)]))]
    return out


C('pd_cross_ok', ['pd'],
  requires=lambda c: wf_cross(c.pd) + wf_edge(c.pd) + [c.pd.ncross < (1 << 28), c.pd.nedges < HALF, c.pd.nedges <= c.pd.MAXEDGES, c.pd.MAXEDGES < HALF],
  defs=cnt_def, allocs=True,
  ensures=lambda c: [('true iff well-formed', c.ret == Or(c.pd.ncross == 0, cross_wf(c.pd)))],
  inv=cross_inv)


# ---- faces
def fhead(pd, f, k):
    F = pd.face[f]
    x = pd.edge[F.edge[k]]
    return z3.If(F.orient[k] == POS, x.head, x.tail), z3.If(F.orient[k] == POS, x.headpos, x.tailpos)


def ftail(pd, f, k):
    F = pd.face[f]
    x = pd.edge[F.edge[k]]
    return z3.If(F.orient[k] == POS, x.tail, x.head), z3.If(F.orient[k] == POS, x.tailpos, x.headpos)


def nxt(k, n):
    return z3.If(k + 1 == n, zi(0), k + 1)


TW_ = z3.Function('turnWf', z3.IntSort(), z3.IntSort(), z3.IntSort())
TW = lambda f, k: TW_(zi(f), zi(k)) == 1


def turn(pd, f, k):
    return TW(f, k)


def turn_(pd, f, k):
    F = pd.face[f]
    m = nxt(k, F.nedges)
    h, t = fhead(pd, f, k), ftail(pd, f, m)
    return z3.And(F.edge[k] < pd.nedges, F.edge[m] < pd.nedges, isor(F.orient[k]), isor(F.orient[m]), h[0] == t[0], (t[1] + 1) % 4 == h[1])


def fturns(pd, f, hi=None):
    return FA(0, pd.face[f].nedges if hi is None else hi, lambda k: turn(pd, f, k), pats=[lambda k: TW_(f, k)])


def allturns(pd, hi=None):
    i, j = z3.Ints('fi fj')
    h = pd.nfaces if hi is None else hi
    return z3.And(FA(0, h, lambda f: pd.face[f].nedges > 0, pats=[lambda f: pd.face[f].nedges]),
                  z3.ForAll([i, j], Imp(z3.And(0 <= i, i < h, 0 <= j, j < pd.face[i].nedges), turn(pd, i, j)), patterns=[TW_(i, j)]))


def canon(pd, hi=None):
    i, j = z3.Ints('fi fj')
    h = pd.nfaces if hi is None else hi
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < h, 0 <= j, j < pd.face[i].nedges), pd.face[i].edge[0] <= pd.face[i].edge[j]), patterns=[pd.face[i].edge[j]])


def face_le(pd, i, j):
    """face i does not come after face j: longer first, then dictionary order"""
    a, b = pd.face[i], pd.face[j]
    n = a.nedges
    return Or(a.nedges > b.nedges, z3.And(a.nedges == b.nedges, FA(0, n, lambda k: Imp(z3.And(a.edge[k] != b.edge[k], FA(0, k, lambda q: a.edge[q] == b.edge[q])), a.edge[k] < b.edge[k]))))


FLe_ = z3.Function('faceLe', z3.IntSort(), z3.IntSort(), z3.IntSort())
FLe = lambda i, j: FLe_(zi(i), zi(j)) == 1


def fle_def(c):
    i, j = z3.Ints('fa fb')
    return [z3.ForAll([i, j], FLe_(i, j) == ite(face_le(c.pd, i, j), 1, 0), patterns=[FLe_(i, j)]), z3.ForAll([i, j], TW_(i, j) == ite(turn_(c.pd, i, j), 1, 0), patterns=[TW_(i, j)])]


def sorted_face(pd, hi=None):
    return FA(1, pd.nfaces if hi is None else hi, lambda i: FLe(i - 1, i), pats=[lambda i: FLe_(i - 1, i)])


def faces0(pd):
    return z3.And(pd.nfaces == 2, *[z3.And(pd.face[f].nedges == 1, pd.face[f].edge[0] == 0) for f in (0, 1)])


def faces_wf(pd):
    return z3.And(pd.nfaces <= pd.MAXFACES, z3.If(pd.ncross == 0, faces0(pd), z3.And(allturns(pd), canon(pd), sorted_face(pd))))


def faces_inv(L):
    pd = L.c.pd
    out = []
    for k, x in L.ints:
        out += [('legal %s' % k, FAface(pd, lambda i, j: pd.face[i].edge[j] < pd.nedges, x)), ('turns %s' % k, allturns(pd, x)), ('canonical %s' % k, canon(pd, x)), ('order %s' % k, sorted_face(pd, x)), ('term %s' % k, FLe_(x - 1, x) >= 0)]
        for k2, y in L.outer:
            out += [('legal on face %s %s' % (k, k2), FA(0, x, lambda j: pd.face[y].edge[j] < pd.nedges, pats=[lambda j: pd.face[y].edge[j]])), ('turns on face %s %s' % (k, k2), fturns(pd, y, x)), ('term %s %s' % (k, k2), TW_(y, x) >= 0)]
            for k3, z in L.ints:
                if k3 != k:
                    out += [('next %s %s %s' % (k, k3, k2), Imp(x < pd.face[y].nedges, z == nxt(x, pd.face[y].nedges))),
                            ('lowest %s %s %s' % (k, k3, k2), z3.And(FA(0, x, lambda j: z <= pd.face[y].edge[j], pats=[lambda j: pd.face[y].edge[j]]), EX(0, x, lambda j: z == pd.face[y].edge[j])))]
    return out


C('pd_faces_ok', ['pd'],
  requires=lambda c: wf_cross(c.pd) + wf_edge(c.pd) + wf_face(c.pd) + [
      c.pd.nfaces < HALF, FA(0, c.pd.nfaces, lambda i: c.pd.face[i].nedges < HALF, pats=[lambda i: c.pd.face[i].nedges]), c.pd.nedges < HALF,
      Imp(c.pd.ncross == 0, FA(0, c.pd.nfaces, lambda i: c.pd.face[i].nedges >= 0))],
  defs=fle_def,
  ensures=lambda c: [('true iff well-formed', c.ret == faces_wf(c.pd))],
  inv=faces_inv)


# ---- components
C('pd_tag_cmp', ['A', 'B'], opts={'order': lambda a, b: a.value() <= b.value()},
  requires=lambda c: [typed(c, 'A', 'pd_tag_t').valid(), typed(c, 'B', 'pd_tag_t').valid()],
  ensures=lambda c: [('order', (c.ret <= 0) == (typed(c, 'A', 'pd_tag_t')[0] <= typed(c, 'B', 'pd_tag_t')[0])), ('equal', (c.ret == 0) == (typed(c, 'A', 'pd_tag_t')[0] == typed(c, 'B', 'pd_tag_t')[0]))])

Before = z3.Function('edgesBefore', z3.IntSort(), z3.IntSort())
Before1 = z3.Function("edgesBefore'", z3.IntSort(), z3.IntSort())


def before_def(c):
    k = z3.Int('bk')
    return [z3.ForAll([k], z3.And(Before(k) == z3.If(k <= 0, zi(0), Before1(k - 1) + c.pd.comp[k - 1].nedges), Before(k) == Before1(k)), patterns=[Before(k)])] + [(lambda i, j: z3.ForAll([i, j], CW_(i, j) == ite(comp_wf_(c.pd, i, j), 1, 0), patterns=[CW_(i, j)]))(*z3.Ints('wi wj'))]


CW_ = z3.Function('compWf', z3.IntSort(), z3.IntSort(), z3.IntSort())
CW = lambda f, k: CW_(zi(f), zi(k)) == 1


def comp_wf(pd, i, j):
    return CW(i, j)


def comp_wf_(pd, i, j):
    C_ = pd.comp[i]
    m = nxt(j, C_.nedges)
    a, b = pd.edge[C_.edge[j]], pd.edge[C_.edge[m]]
    return z3.And(C_.edge[j] == Before(i) + j, C_.edge[j] < pd.nedges, C_.edge[m] < pd.nedges, a.head == b.tail, opp(a.headpos) == b.tailpos)


def comps_join(pd, hi=None):
    i, j = z3.Ints('ci cj')
    h = pd.ncomps if hi is None else hi
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < h, 0 <= j, j < pd.comp[i].nedges), comp_wf(pd, i, j)), patterns=[CW_(i, j)])


def tags_wf(pd):
    i, j = z3.Ints('ti tj')
    return z3.And(FA(0, pd.ncomps, lambda k: pd.comp[k].tag >= 65, pats=[lambda k: pd.comp[k].tag]),
                  z3.ForAll([i, j], Imp(z3.And(0 <= i, i < j, j < pd.ncomps), pd.comp[i].tag != pd.comp[j].tag), patterns=[z3.MultiPattern(pd.comp[i].tag, pd.comp[j].tag)]))


def comps_wf(pd):
    return z3.And(pd.ncomps <= pd.MAXCOMPONENTS, z3.If(pd.ncross == 0, z3.And(pd.ncomps == 1, pd.comp[0].nedges == 1, pd.comp[0].edge[0] == 0),
                                                       z3.And(comps_join(pd), Before(pd.ncomps) == pd.nedges, tags_wf(pd))))


def comps_inv(L):
    pd = L.c.pd
    out = []
    for k, x in L.ints:
        out += [('joined %s' % k, comps_join(pd, x)), ('bounded %s' % k, Before(x) <= pd.nedges)]
        for ko, o in enumerate([o for o in L.objs if o.ct.k == 'int']):
            i, j = z3.Ints('ti tj')
            out += [('copied %s %s' % (k, ko), FA(0, x, lambda q: o[q] == pd.comp[q].tag, pats=[lambda q: o[q], lambda q: pd.comp[q].tag])),
                    ('distinct %s %s' % (k, ko), z3.ForAll([i, j], Imp(z3.And(0 <= i, i < j, j < x), o[i] != o[j]), patterns=[z3.MultiPattern(o[i], o[j])])),
                    ('letters %s %s' % (k, ko), FA(0, x, lambda q: o[q] >= 65, pats=[lambda q: o[q]]))]
        for k3, z in L.ints:
            if k3 != k:
                out += [('count %s %s' % (k, k3), z == Before(x))]
        for k2, y in L.outer:
            out += [('term %s %s' % (k, k2), CW_(y, x) >= 0), ('joined in %s %s' % (k, k2), FA(0, x, lambda j: comp_wf(pd, y, j), pats=[lambda j: CW_(y, j)]))]
            for k3, z in L.ints:
                if k3 != k:
                    out += [('count in %s %s %s' % (k, k3, k2), z == Before(y) + x)]
    return out


C('pd_comps_ok', ['pd'],
  requires=lambda c: wf_edge(c.pd) + wf_comp(c.pd) + [c.pd.nedges < HALF, c.pd.ncomps < HALF, FA(0, c.pd.ncomps, lambda i: c.pd.comp[i].nedges < HALF, pats=[lambda i: c.pd.comp[i].nedges]),
      FA(0, c.pd.nedges, lambda e: Imp(c.pd.ncross > 0, z3.And(c.pd.edge[e].headpos < 4, c.pd.edge[e].tailpos < 4)), pats=[lambda e: c.pd.edge[e].headpos, lambda e: c.pd.edge[e].tailpos])],
  defs=before_def, allocs=True,
  ensures=lambda c: [('true iff well-formed', c.ret == comps_wf(c.pd))],
  inv=comps_inv)


C('pd_ok', ['pd'], allocs=True,
  requires=lambda c: wf_cross(c.pd) + wf_edge(c.pd) + wf_face(c.pd) + wf_comp(c.pd) + [
      c.pd.ncross < (1 << 28), c.pd.nedges <= c.pd.MAXEDGES, c.pd.MAXEDGES < HALF, c.pd.nfaces < HALF, c.pd.ncomps < HALF,
      FA(0, c.pd.nfaces, lambda i: c.pd.face[i].nedges < HALF, pats=[lambda i: c.pd.face[i].nedges]),
      FA(0, c.pd.ncomps, lambda i: c.pd.comp[i].nedges < HALF, pats=[lambda i: c.pd.comp[i].nedges]),
      Imp(c.pd.ncross == 0, FAslot(c.pd, lambda i, p: slot(c.pd, i, p) < c.pd.nedges))],
  defs=lambda c: cnt_def(c) + ew_def(c) + fle_def(c) + before_def(c),
  ensures=lambda c: [('true iff all parts are well-formed', c.ret == z3.And(Or(c.pd.ncross == 0, cross_wf(c.pd)), Or(c.pd.ncross == 0, c.pd.nedges == 2 * c.pd.ncross), edges_wf(c.pd), faces_wf(c.pd), comps_wf(c.pd)))])
