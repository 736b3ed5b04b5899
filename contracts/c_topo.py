"""Over/under strand lookup, traversal, alternation, linking number (plcTopology.c, pdcode.c)."""
from common import *
CONTRACTS = {}


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def slot(pd, c, p):
    return pd.cross[c].edge[p]


def incoming(pd, c, p):
    e = slot(pd, c, p)
    return z3.And(pd.edge[e].head == c, pd.edge[e].headpos == p)


def outgoing(pd, c, p):
    e = slot(pd, c, p)
    return z3.And(pd.edge[e].tail == c, pd.edge[e].tailpos == p)


def FAslot(pd, fn):
    c, p = z3.Ints('sc sp')
    return z3.ForAll([c, p], Imp(z3.And(0 <= c, c < pd.ncross, 0 <= p, p < 4), fn(c, p)), patterns=[slot(pd, c, p)])


def wf_graph(pd):
    """crossing slots and edge records refer to each other"""
    return wf_cross(pd) + wf_edge(pd) + [
        FA(0, pd.nedges, lambda e: z3.And(pd.edge[e].head < pd.ncross, pd.edge[e].headpos < 4, pd.edge[e].tail < pd.ncross, pd.edge[e].tailpos < 4,
                                          slot(pd, pd.edge[e].head, pd.edge[e].headpos) == e, slot(pd, pd.edge[e].tail, pd.edge[e].tailpos) == e,
                                          Or(pd.edge[e].head != pd.edge[e].tail, pd.edge[e].headpos != pd.edge[e].tailpos)),
           pats=[lambda e: pd.edge[e].head, lambda e: pd.edge[e].tail]),
        FAslot(pd, lambda c, p: z3.And(slot(pd, c, p) < pd.nedges, Or(incoming(pd, c, p), outgoing(pd, c, p))))]


def opp(p):
    return (p + 2) % 4


def oriented(pd):
    """every strand runs straight through its crossings"""
    return [FAslot(pd, lambda c, p: incoming(pd, c, p) == outgoing(pd, c, opp(p)))]


def cross_at(c):
    """what the strand lookups need at the crossing"""
    pd = c.pd
    return [pd.valid(), pd.cross.block(pd.ncross), pd.edge.block(pd.nedges), c.cr < pd.ncross] + \
        [slot(pd, c.cr, p) < pd.nedges for p in range(4)] + [pd.cross[c.cr].sign <= 2]


def strands(pd, cr):
    """(over in, over out, under in, under out): the right-hand rule; an unset crossing counts as positive"""
    in0, in1 = incoming(pd, cr, 0), incoming(pd, cr, 1)
    a = z3.If(in0, zi(0), zi(2))
    b = z3.If(in1, zi(1), zi(3))
    even = (in0 == in1) == (pd.cross[cr].sign != NEG)
    oi = z3.If(even, a, b)
    ui = z3.If(even, b, a)
    return oi, opp(oi), ui, opp(ui)


def outs(c, *ns):
    ps = [c.arg(n) for n in ns]
    return [p.valid() for p in ps] + [ps[i].obj != ps[j].obj for i in range(len(ps)) for j in range(i)]


C('pd_overunder_internal', ['pd', 'cr', 'oi', 'oo', 'ui', 'uo'], internal=True,
  requires=lambda c: cross_at(c) + outs(c, 'oi', 'oo', 'ui', 'uo'),
  modifies=lambda c: [Ref(c.arg(n).elem(0)) for n in ('oi', 'oo', 'ui', 'uo')],
  ensures=lambda c: [(n, c.arg(n, c.new)[0] == s) for n, s in zip(('oi', 'oo', 'ui', 'uo'), strands(c.pd, c.cr))])

for fn, k in (('pd_overstrand_pos', 0), ('pd_understrand_pos', 2)):
    C(fn, ['pd', 'cr', 'i', 'o'],
      requires=lambda c: cross_at(c) + outs(c, 'i', 'o'),
      modifies=lambda c: [Ref(c.i.elem(0)), Ref(c.o.elem(0))],
      ensures=lambda c, k=k: [('incoming', c.i_[0] == strands(c.pd, c.cr)[k]), ('outgoing', c.o_[0] == strands(c.pd, c.cr)[k + 1])])
for fn, k in (('pd_overstrand', 0), ('pd_understrand', 2)):
    C(fn, ['pd', 'cr', 'i', 'o'],
      requires=lambda c: cross_at(c) + outs(c, 'i', 'o'),
      modifies=lambda c: [Ref(c.i.elem(0)), Ref(c.o.elem(0))],
      ensures=lambda c, k=k: [('incoming', c.i_[0] == pick4(c.pd.cross[c.cr], strands(c.pd, c.cr)[k])), ('outgoing', c.o_[0] == pick4(c.pd.cross[c.cr], strands(c.pd, c.cr)[k + 1]))])

C('pd_next_edge', ['pd', 'edge'],
  requires=lambda c: wf_graph(c.pd) + oriented(c.pd) + [c.edge < c.pd.nedges],
  ensures=lambda c: [('edge', c.ret < c.pd.nedges), ('starts where the edge ends', c.pd.edge[c.ret].tail == c.pd.edge[c.edge].head),
                     ('opposite slot', c.pd.edge[c.ret].tailpos == opp(c.pd.edge[c.edge].headpos))])
C('pd_previous_edge', ['pd', 'edge'],
  requires=lambda c: wf_graph(c.pd) + oriented(c.pd) + [c.edge < c.pd.nedges],
  ensures=lambda c: [('edge', c.ret < c.pd.nedges), ('ends where the edge starts', c.pd.edge[c.ret].head == c.pd.edge[c.edge].tail),
                     ('opposite slot', c.pd.edge[c.ret].headpos == opp(c.pd.edge[c.edge].tailpos))])

C('pdint_next_comp_edge', ['pd', 'edge', 'nxt', 'nxt_or'], internal=True,
  requires=lambda c: wf_graph(c.pd) + [c.edge < c.pd.nedges, c.nxt.valid(), c.nxt_or.valid()],
  modifies=lambda c: [Ref(c.nxt.elem(0)), Ref(c.nxt_or.elem(0))],
  ensures=lambda c: (lambda cr, p: [
      ('edge across', c.nxt_[0] == slot(c.pd, cr, p)),
      ('orientation', c.nxt_or_[0] == ite(outgoing(c.pd, cr, p), POS, NEG))])(c.pd.edge[c.edge].head, opp(c.pd.edge[c.edge].headpos)))

C('pdint_next_edge_on_face', ['pd', 'ed', 'orient', 'next_edge', 'next_or'], internal=True,
  requires=lambda c: wf_graph(c.pd) + [c.ed < c.pd.nedges, isor(c.orient), c.next_edge.valid(), c.next_or.valid()],
  modifies=lambda c: [Ref(c.next_edge.elem(0)), Ref(c.next_or.elem(0))],
  ensures=lambda c: (lambda cr, p: [
      ('edge to the left', c.next_edge_[0] == slot(c.pd, cr, p)),
      ('orientation', c.next_or_[0] == ite(incoming(c.pd, cr, p), NEG, POS))])(
          z3.If(c.orient == POS, c.pd.edge[c.ed].head, c.pd.edge[c.ed].tail), (z3.If(c.orient == POS, c.pd.edge[c.ed].headpos, c.pd.edge[c.ed].tailpos) + 3) % 4))


def over_at(pd, cr, pos):
    """the strand through slot pos of cr is the over strand"""
    even = (incoming(pd, cr, 0) == incoming(pd, cr, 1)) == (pd.cross[cr].sign != NEG)
    return even == (pos % 2 == 0)


def alternates(pd, e):
    return over_at(pd, pd.edge[e].tail, pd.edge[e].tailpos) != over_at(pd, pd.edge[e].head, pd.edge[e].headpos)


def FAcomp(pd, fn, hi=None):
    i, j = z3.Ints('ci cj')
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < (pd.ncomps if hi is None else hi), 0 <= j, j < pd.comp[i].nedges), fn(i, j)), patterns=[pd.comp[i].edge[j]])


def comp_edges(pd):
    return wf_comp(pd) + [FAcomp(pd, lambda i, j: pd.comp[i].edge[j] < pd.nedges)]


def inat(pd, cr, pos):
    return z3.If(pos % 2 == 0, incoming(pd, cr, 0), incoming(pd, cr, 1))


def through(pd, e):
    """the edge record agrees with the direction of the strands at its two crossings (holds in every oriented diagram)"""
    x = pd.edge[e]
    return z3.And(x.head < pd.ncross, x.tail < pd.ncross, x.headpos < 4, x.tailpos < 4,
                  inat(pd, x.tail, x.tailpos) == (x.tailpos >= 2), inat(pd, x.head, x.headpos) == (x.headpos < 2))


C('pd_is_alternating', ['pd'],
  requires=lambda c: wf_cross(c.pd) + wf_edge(c.pd) + comp_edges(c.pd) + [FA(0, c.pd.ncross, lambda i: c.pd.cross[i].sign <= 2),
     FAslot(c.pd, lambda x, p: slot(c.pd, x, p) < c.pd.nedges), FAcomp(c.pd, lambda i, j: through(c.pd, c.pd.comp[i].edge[j]))],
  abort=lambda c: EX(0, c.pd.ncross, lambda i: c.pd.cross[i].sign == UNSET),
  ensures=lambda c: [('every edge goes over-to-under or under-to-over', c.ret == FAcomp(c.pd, lambda i, j: alternates(c.pd, c.pd.comp[i].edge[j])))],
  inv=lambda L: [('signs set %s' % k, FA(0, x, lambda i: L.c.pd.cross[i].sign != UNSET)) for k, x in L.ints] +
                [('comps done %s' % k, FAcomp(L.c.pd, lambda i, j: alternates(L.c.pd, L.c.pd.comp[i].edge[j]), x)) for k, x in L.ints] +
                [('edges done %s %s' % (k, k2), FA(0, x, lambda j: alternates(L.c.pd, L.c.pd.comp[y].edge[j]), pats=[lambda j: L.c.pd.comp[y].edge[j]])) for k, x in L.ints for k2, y in L.outer])

CompOf = z3.Function('compOf', z3.IntSort(), z3.IntSort())


def disjoint_comps(pd):
    """the components partition the edges"""
    return [FAcomp(pd, lambda i, j: CompOf(pd.comp[i].edge[j]) == i),
            FA(0, pd.nedges, lambda e: z3.And(0 <= CompOf(e), CompOf(e) < pd.ncomps, EX(0, pd.comp[CompOf(e)].nedges, lambda j: pd.comp[CompOf(e)].edge[j] == e)), pats=[lambda e: CompOf(e)])]


def lk_term(c, me, other, signed):
    pd = c.pd

    def term(k):
        e = pd.comp[me].edge[k]
        h, hp = pd.edge[e].head, pd.edge[e].headpos
        o = slot(pd, h, (hp + 1) % 4)
        return z3.If(CompOf(o) == other, z3.If(pd.cross[h].sign == NEG, zi(-1), zi(1)) if signed else zi(1), zi(0))
    return term


def lk_sums(c, signed):
    a = ghost_sum(c, 'lkA', lk_term(c, c.c1, c.c2, signed))
    b = ghost_sum(c, 'lkB', lk_term(c, c.c2, c.c1, signed))
    return a, b


def half(x):
    return z3.If(x >= 0, x / 2, -((-x) / 2))


for fn, sg in (('pd_linking_number', True), ('pd_unsigned_linking_number', False)):
    C(fn, ['pd', 'c1', 'c2'], opts={'nomerge': True},
      requires=lambda c: wf_graph(c.pd) + comp_edges(c.pd) + disjoint_comps(c.pd) + [c.c1 < c.pd.ncomps, c.c2 < c.pd.ncomps, FA(0, c.pd.ncross, lambda i: c.pd.cross[i].sign <= 2),
                                                                                     FA(0, c.pd.ncomps, lambda i: c.pd.comp[i].nedges < (1 << 30))],
      defs=lambda c, sg=sg: lk_sums(c, sg)[0][1] + lk_sums(c, sg)[1][1],
      abort=(lambda c: EX(0, c.pd.ncross, lambda i: c.pd.cross[i].sign == UNSET)) if sg else None,
      ensures=lambda c, sg=sg: [('half the sum over the crossings of the two components', Or(c.ret == half(lk_sums(c, sg)[0][0](c.pd.comp[c.c1].nedges)), c.ret == half(lk_sums(c, sg)[1][0](c.pd.comp[c.c2].nedges))))],
      inv=lambda L, sg=sg: [('acc%d %s %s' % (q, k, k2), z3.And(x == lk_sums(L.c, sg)[q][0](y), x >= -y, x <= y)) for q in (0, 1) for k, x in L.ints for k2, y in L.ints if k != k2])
