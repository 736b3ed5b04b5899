"""Orientation, crossing and edge primitives (pdcode.c)."""
from common import *
CONTRACTS = {}


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


C('pd_compose_or', ['a', 'b'],
  requires=lambda c: [isor(c.a), isor(c.b)],
  ensures=lambda c: [('product', c.ret == ite(c.a == c.b, POS, NEG))])

C('pd_or_ok', ['orient'],
  ensures=lambda c: [('legal', c.ret == isor(c.orient))])


def orview(c, nm, mem=None):
    p = c.arg(nm, mem)
    return PtrView(p.mem, PV(p.pv.o, p.pv.i, c.eng.types.named('pd_or_t')), c.eng.types.named('pd_or_t'))


def typed(c, nm, tname, mem=None):
    p = c.arg(nm, mem)
    T = c.eng.types.named(tname)
    return PtrView(p.mem, PV(p.pv.o, p.pv.i, T), T)


C('pd_or_cmp', ['A', 'B'],
  requires=lambda c: [orview(c, 'A').valid(1), orview(c, 'B').valid(1), isor(orview(c, 'A')[0]), isor(orview(c, 'B')[0])],
  ensures=lambda c: [('equal iff 0', (c.ret == 0) == (orview(c, 'A')[0] == orview(c, 'B')[0])),
                     ('positive first', (c.ret < 0) == z3.And(orview(c, 'A')[0] == POS, orview(c, 'B')[0] == NEG))])

C('pd_build_cross', ['e0', 'e1', 'e2', 'e3'],
  ensures=lambda c: [('edge%d' % k, c.ret.edge[k] == c.arg(k)) for k in range(4)])

C('pd_oriented_edge', ['e', 'orient'],
  requires=lambda c: [isor(c.orient)],
  ensures=lambda c: [('pos keeps', Imp(c.orient == POS, z3.And(c.ret.head == c.e.head, c.ret.headpos == c.e.headpos, c.ret.tail == c.e.tail, c.ret.tailpos == c.e.tailpos))),
                     ('neg swaps', Imp(c.orient == NEG, z3.And(c.ret.head == c.e.tail, c.ret.headpos == c.e.tailpos, c.ret.tail == c.e.head, c.ret.tailpos == c.e.headpos)))])


def edgeref(c, mem=None):
    pd = c.arg('pd', mem)
    return pd.edge.elem(c.edge)


C('pd_reorient_edge', ['pd', 'edge', 'orient'],
  requires=lambda c: [c.pd.valid(), c.pd.edge.block(c.pd.nedges), c.edge < c.pd.nedges, isor(c.orient)],
  modifies=lambda c: [Ref(edgeref(c))],
  ensures=lambda c: (lambda o, n: [
      ('pos keeps', Imp(c.orient == POS, z3.And(n.head == o.head, n.headpos == o.headpos, n.tail == o.tail, n.tailpos == o.tailpos))),
      ('neg swaps', Imp(c.orient == NEG, z3.And(n.head == o.tail, n.headpos == o.tailpos, n.tail == o.head, n.tailpos == o.headpos)))])(edgeref(c), edgeref(c, c.new)))

C('pdint_rotate_left', ['cr', 'k'],
  requires=lambda c: [c.cr.valid(), c.k < 4],
  modifies=lambda c: [Ref(c.cr.elem(0))],
  ensures=lambda c: [('rotated %d' % p, c.cr_.edge[p] == pick4(c.cr, (c.k + p) % 4)) for p in range(4)] + [('sign kept', c.cr_.sign == c.cr.sign)])


def minof4(cr):
    e = [cr.edge[k] for k in range(4)]
    m = e[0]
    for x in e[1:]:
        m = z3.If(x < m, x, m)
    return m


def copies(cr, v):
    return sum([z3.If(cr.edge[k] == v, 1, 0) for k in range(1, 4)], z3.If(cr.edge[0] == v, 1, 0))


def opposite_dup(cr, m):
    return Or(z3.And(cr.edge[0] == m, cr.edge[2] == m), z3.And(cr.edge[1] == m, cr.edge[3] == m))


C('pdint_cross_rdist', ['cr'],
  requires=lambda c: [c.cr.valid()],
  ensures=lambda c: [('in range', c.ret < 4),
                     ('minimal', pick4(c.cr, c.ret) == minof4(c.cr)),
                     ('leftmost copy', Imp(Not(opposite_dup(c.cr, minof4(c.cr))), pick4(c.cr, (c.ret + 3) % 4) != minof4(c.cr)))])


def revd(c, p):
    """p-th edge after the optional reversal"""
    return z3.If(c.orient == NEG, c.cross.edge[3 - p], c.cross.edge[p])


def rot_is(c, r):
    seq = [revd(c, p) for p in range(4)]
    return z3.And(*[c.cross_.edge[p] == seq[(p + r) % 4] for p in range(4)])


C('pd_canonorder_cross', ['cross', 'orient'],
  requires=lambda c: [c.cross.valid(), isor(c.orient)],
  modifies=lambda c: [Ref(c.cross.elem(0))],
  ensures=lambda c: [('rotation of the (reversed) cycle', Or(*[rot_is(c, r) for r in range(4)])),
                     ('lowest first', z3.And(*[c.cross_.edge[0] <= c.cross_.edge[k] for k in range(1, 4)])),
                     ('leftmost copy', Imp(Not(opposite_dup(c.cross_, c.cross_.edge[0])), c.cross_.edge[3] != c.cross_.edge[0])),
                     ('sign kept', c.cross_.sign == c.cross.sign)])
