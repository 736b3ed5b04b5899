"""Lookup of edges on components/faces, comparators (pdcode.c)."""
from common import *
CONTRACTS = {}


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def noalias_comp(c, p):
    return FA(0, c.pd.ncomps, lambda i: c.pd.comp[i].edge.obj != p.obj)


C('pd_component_and_pos', ['pd', 'edge', 'compP', 'comp_posP'],
  requires=lambda c: wf_comp(c.pd) + [c.edge < c.pd.nedges, out_ok(c.compP), out_ok(c.comp_posP), noalias_comp(c, c.compP), noalias_comp(c, c.comp_posP),
                                      Or(c.compP.null, c.comp_posP.null, c.compP.obj != c.comp_posP.obj)],
  modifies=lambda c: [Ref(c.compP.elem(0)), Ref(c.comp_posP.elem(0))],
  abort=lambda c: FA(0, c.pd.ncomps, lambda i: FA(0, c.pd.comp[i].nedges, lambda j: c.pd.comp[i].edge[j] != c.edge)),
  ensures=lambda c: [
      ('location', Imp(z3.And(c.compP.nonnull, c.comp_posP.nonnull),
                       z3.And(c.compP_[0] < c.pd.ncomps, c.comp_posP_[0] < c.pd.comp[c.compP_[0]].nedges,
                              c.pd.comp[c.compP_[0]].edge[c.comp_posP_[0]] == c.edge))),
      ('component only', Imp(c.compP.nonnull, z3.And(c.compP_[0] < c.pd.ncomps, EX(0, c.pd.comp[c.compP_[0]].nedges, lambda j: c.pd.comp[c.compP_[0]].edge[j] == c.edge)))),
      ('position only', Imp(c.comp_posP.nonnull, EX(0, c.pd.ncomps, lambda i: z3.And(c.comp_posP_[0] < c.pd.comp[i].nedges, c.pd.comp[i].edge[c.comp_posP_[0]] == c.edge)))),
  ],
  inv=lambda L: [('scanned comps %s' % k, FA(0, x, lambda i: FA(0, L.c.pd.comp[i].nedges, lambda j: L.c.pd.comp[i].edge[j] != L.c.edge))) for k, x in L.ints] +
                [('scanned pos %s %s' % (k, k2), FA(0, x, lambda j: L.c.pd.comp[y].edge[j] != L.c.edge)) for k, x in L.ints for k2, y in L.outer])


C('pd_edge_on_face', ['pd', 'edge', 'face'],
  requires=lambda c: wf_face(c.pd) + [c.edge < c.pd.nedges, c.face < c.pd.nfaces],
  ensures=lambda c: [('found iff present', c.ret == EX(0, c.pd.face[c.face].nedges, lambda j: c.pd.face[c.face].edge[j] == c.edge))],
  inv=lambda L: [('scanned %s' % k, FA(0, x, lambda j: L.c.pd.face[L.c.face].edge[j] != L.c.edge)) for k, x in L.ints] +
                [('found flag %s %s' % (kb, k), b == EX(0, x, lambda j: L.c.pd.face[L.c.face].edge[j] == L.c.edge)) for kb, b in L.bools for k, x in L.ints])


def lexcmp(ret, a, b, n):
    """ret has the sign of the first difference of a[0..n) and b[0..n)"""
    first = lambda p, j: z3.And(a(j) != b(j), FA(0, j, lambda k: a(k) == b(k)))
    return [('0 iff equal', (ret == 0) == FA(0, n, lambda k: a(k) == b(k))),
            ('negative iff first difference is smaller', FA(0, n, lambda j: Imp(z3.And(a(j) != b(j), FA(0, j, lambda k: a(k) == b(k))), (ret < 0) == (a(j) < b(j)))))]


HALF = 1 << 31


def smallidx(p, n):
    return FA(0, n, lambda k: p[k] < HALF)


def cr(c, nm):
    return typed(c, nm, 'pd_crossing_t')


def cross_cmp_post(c):
    a, b = cr(c, 'A'), cr(c, 'B')
    eq = [a.edge[k] == b.edge[k] for k in range(4)]
    less = z3.BoolVal(False)
    for k in (3, 2, 1, 0):
        less = z3.Or(a.edge[k] < b.edge[k], z3.And(eq[k], less))
    return [('0 iff equal', (c.ret == 0) == z3.And(*eq)), ('negative iff lexicographically smaller', (c.ret < 0) == less)]


C('pd_cross_cmp', ['A', 'B'],
  requires=lambda c: [cr(c, 'A').valid(), cr(c, 'B').valid()] + [cr(c, n).edge[k] < HALF for n in 'AB' for k in range(4)],
  ensures=cross_cmp_post)


def buf_cmp_post(tname):
    def post(c):
        a, b = typed(c, 'A', tname), typed(c, 'B', tname)
        n = a.nedges
        same = a.nedges == b.nedges
        return [('longest first', Imp(Not(same), z3.And((c.ret < 0) == (a.nedges > b.nedges), c.ret != 0))),
                ('0 iff equal', (c.ret == 0) == z3.And(same, FA(0, n, lambda k: a.edge[k] == b.edge[k]))),
                ('there is a first difference', Imp(z3.And(same, c.ret != 0), EX(0, n, lambda j: z3.And(a.edge[j] != b.edge[j], FA(0, j, lambda k: a.edge[k] == b.edge[k]))))),
                ('dictionary order', Imp(same, FA(0, n, lambda j: Imp(z3.And(a.edge[j] != b.edge[j], FA(0, j, lambda k: a.edge[k] == b.edge[k])), (c.ret < 0) == (a.edge[j] < b.edge[j])))))]
    return post


def buf_cmp_req(tname):
    def req(c):
        out = []
        for n in 'AB':
            p = typed(c, n, tname)
            out += [p.valid(), p.edge.block(p.nedges), p.nedges < HALF, smallidx(p.edge, p.nedges)]
        return out
    return req


def buf_cmp_inv(tname):
    def inv(L):
        a, b = typed(L.c, 'A', tname), typed(L.c, 'B', tname)
        return [('equal so far %s' % k, FA(0, x, lambda j: a.edge[j] == b.edge[j])) for k, x in L.ints]
    return inv


for fn, t in (('pd_face_cmp', 'pd_face_t'), ('pd_component_cmp', 'pd_component_t')):
    C(fn, ['A', 'B'], requires=buf_cmp_req(t), ensures=buf_cmp_post(t), inv=buf_cmp_inv(t))


def FAface(pd, fn, hi=None):
    i, j = z3.Ints('fi fj')
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < (pd.nfaces if hi is None else hi), 0 <= j, j < pd.face[i].nedges), fn(i, j)), patterns=[pd.face[i].edge[j]])


GF = {POS: z3.Ints('posF posE'), NEG: z3.Ints('negF negE')}


def fap_req(c):
    """the edge occurs once with each orientation on the faces (ghost positions GF)"""
    pd = c.pd
    outs = [c.posface, c.posface_pos, c.negface, c.negface_pos]
    r = wf_face(pd) + [p.valid() for p in outs] + apart(*outs) + [c.edge < pd.nedges]
    r += [FA(0, pd.nfaces, lambda i: z3.And(*[pd.face[i].edge.obj != p.obj for p in outs]))]
    r += [FAface(pd, lambda i, j: isor(pd.face[i].orient[j]))]
    r += [GF[POS][0] != GF[NEG][0]]   # no edge of a planar 4-regular diagram is a bridge
    for o in (POS, NEG):
        F, E = GF[o]
        r += [z3.And(0 <= F, F < pd.nfaces, 0 <= E, E < pd.face[F].nedges, pd.face[F].edge[E] == c.edge, pd.face[F].orient[E] == o),
              FAface(pd, lambda i, j: Imp(z3.And(pd.face[i].edge[j] == c.edge, pd.face[i].orient[j] == o), z3.And(i == F, j == E)))]
    return r


def fap_set(c, mem, o):
    F, E = GF[o]
    a, b = ('posface', 'posface_pos') if o == POS else ('negface', 'negface_pos')
    return z3.And(c.arg(a, mem)[0] == F, c.arg(b, mem)[0] == E)


C('pd_face_and_pos', ['pd', 'edge', 'posface', 'posface_pos', 'negface', 'negface_pos'],
  requires=fap_req,
  modifies=lambda c: [Ref(p.elem(0)) for p in (c.posface, c.posface_pos, c.negface, c.negface_pos)],
  ensures=lambda c: [('positive occurrence', fap_set(c, c.new, POS)), ('negative occurrence', fap_set(c, c.new, NEG))],
  inv=lambda L: [('found %d %s' % (o, k), Imp(GF[o][0] < x, fap_set(L.c, L.cur, o))) for o in (POS, NEG) for k, x in L.ints] +
                [('found in %d %s %s' % (o, k, k2), Imp(Or(GF[o][0] < y, z3.And(GF[o][0] == y, GF[o][1] < x)), fap_set(L.c, L.cur, o))) for o in (POS, NEG) for k, x in L.ints for k2, y in L.outer])
