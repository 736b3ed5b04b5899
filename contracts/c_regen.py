"""Rebuilding the derived parts of a diagram (pdcode.c)."""
from common import *
CONTRACTS = {}


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


U = M32 - 1
C('pdint_find_unassigned_edge', ['pd', 'ea', 'all'],
  requires=lambda c: [c.pd.valid(), c.ea.valid(c.pd.nedges), c.all.valid()],
  modifies=lambda c: [Ref(c.all.elem(0))],
  ensures=lambda c: [('all assigned', (c.all_[0] != 0) == FA(0, c.pd.nedges, lambda e: c.ea[e].comp != -1, pats=[lambda e: c.ea[e].comp])),
                     ('the first unassigned edge', Imp(c.all_[0] == 0, z3.And(c.ret < c.pd.nedges, c.ea[c.ret].comp == -1, FA(0, c.ret, lambda e: c.ea[e].comp != -1, pats=[lambda e: c.ea[e].comp])))),
                     ('flag', c.all_[0] <= 1)],
  inv=lambda L: [('assigned %s' % k, FA(0, x, lambda e: L.c.ea[e].comp != -1, pats=[lambda e: L.c.ea[e].comp])) for k, x in L.ints])
C('pdint_crossmark_new', ['ncross'], allocs=True, requires=lambda c: [c.ncross >= 1, c.ncross < (1 << 24)],
  ensures=lambda c: [('room', z3.And(c.ret.block(c.ncross), c.fresh_obj(c.ret))),
                     ('nothing marked', FA(0, c.ncross, lambda i: z3.And(c.ret[i].num_used == 0, *[c.ret[i].pos_used[j] == 0 for j in range(4)])))], opts={'fresh_ret': True},
  inv=lambda L: [('clear %s' % k, FA(0, x, lambda i: z3.And(o[i].num_used == 0, *[o[i].pos_used[j] == 0 for j in range(4)]), pats=[lambda i: o[i].num_used])) for k, x in L.ints + L.outer for o in L.objs if o.ct.k == 'struct'])


def used(cm, i):
    return Or(cm[i].num_used == 4, z3.And(*[cm[i].pos_used[j] != 0 for j in range(4)]))


C('pdint_find_unused_cross', ['cm', 'ncross', 'cross', 'pos'],
  requires=lambda c: [c.cm.valid(c.ncross), c.cross.valid(), c.pos.valid(), c.cross.obj != c.pos.obj],
  modifies=lambda c: [Ref(c.cross.elem(0)), Ref(c.pos.elem(0))],
  ensures=lambda c: [('none left', Not(c.ret) == FA(0, c.ncross, lambda i: used(c.cm, i), pats=[lambda i: c.cm[i].num_used])),
                     ('the first unused position', Imp(c.ret, z3.And(c.cross_[0] < c.ncross, c.pos_[0] < 4, Not(used(c.cm, c.cross_[0])), c.cm[c.cross_[0]].num_used != 4, pick(c.cm[c.cross_[0]].pos_used, c.pos_[0]) == 0,
                                                                       FA(0, c.cross_[0], lambda i: used(c.cm, i), pats=[lambda i: c.cm[i].num_used]))))],
  inv=lambda L: [('used %s' % k, FA(0, x, lambda i: used(L.c.cm, i), pats=[lambda i: L.c.cm[i].num_used])) for k, x in L.ints + L.outer] +
                [('so far %s %s' % (k, k2), z3.And(*[Imp(x > j, L.c.cm[y].pos_used[j] != 0) for j in range(4)])) for k, x in L.ints for k2, y in L.outer])


def pick(a, j):
    n = num(zi(j))
    if n is not None:
        return a[n]
    return z3.If(j == 0, a[0], z3.If(j == 1, a[1], z3.If(j == 2, a[2], a[3])))


def before(i, j, a, b):
    return Or(i < a, z3.And(i == a, j < b))


def fe_none(c, a, b, skip=None):
    """the edge is nowhere before slot b of crossing a, other than at skip"""
    i = z3.Int('fi')
    cs = []
    for j in range(4):
        here = before(i, j, a, b)
        if skip is not None:
            here = z3.And(here, Not(z3.And(i == skip[0], skip[1] == j)))
        cs.append(Imp(here, c.cross[i].edge[j] != c.edge))
    return z3.ForAll([i], Imp(z3.And(i >= 0, i < c.ncross), z3.And(*cs)), patterns=[c.cross[i].edge[0]])


def fe_inv(L):
    c = L.c
    e, p = c.arg('ends', L.cur), c.arg('pos', L.cur)
    out = []
    for k, x in L.ints + L.outer:
        for k1, y in [('0', zi(0))] + L.ints:
            for k2, n in L.ints + L.outer:
                if len({k, k1, k2}) == 3:
                    out += [('none %s %s %s' % (k, k1, k2), Imp(n == 0, fe_none(c, x, y))), ('few %s' % k2, n <= 1),
                            ('one %s %s %s' % (k, k1, k2), Imp(n == 1, z3.And(e[0] < c.ncross, p[0] < 4, before(e[0], p[0], x, y), pick(c.cross[e[0]].edge, p[0]) == c.edge, fe_none(c, x, y, (e[0], p[0])))))]
    return out


def twice(cross, n, e):
    i, j, a, b = z3.Ints('ti tj ta tb')
    return z3.Exists([i, j, a, b], z3.And(0 <= i, a < n, 0 <= j, j < 4, 0 <= b, b < 4, before(i, j, a, b), pick(cross[i].edge, j) == e, pick(cross[a].edge, b) == e))


C('pdint_find_edge_in_crossings', ['cross', 'ncross', 'edge', 'ends', 'pos'],
  requires=lambda c: [c.cross.valid(c.ncross), c.ends.valid(2), c.pos.valid(2), c.ends.obj != c.pos.obj, twice(c.cross, c.ncross, c.edge)],
  modifies=lambda c: [Rng(c.ends, 0, 2), Rng(c.pos, 0, 2)],
  ensures=lambda c: [('both ends carry the edge', z3.And(*[z3.And(c.ends_[k] < c.ncross, c.pos_[k] < 4, pick(c.cross[c.ends_[k]].edge, c.pos_[k]) == c.edge) for k in range(2)])),
                     ('in order', before(c.ends_[0], c.pos_[0], c.ends_[1], c.pos_[1])),
                     ('the first two places', fe_none(c, c.ends_[1], c.pos_[1], (c.ends_[0], c.pos_[0])))],
  inv=fe_inv, opts={'second': True})
C('pd_buf_cmp', ['a', 'b', 'len'], requires=lambda c: [c.a.valid(c.len), c.b.valid(c.len)],
  ensures=lambda c: [('equal', (c.ret == 0) == FA(0, c.len, lambda k: c.a[k] == c.b[k], pats=[lambda k: c.a[k], lambda k: c.b[k]])),
                     ('first difference', FA(0, c.len, lambda k: Imp(z3.And(c.a[k] != c.b[k], FA(0, k, lambda m: c.a[m] == c.b[m])), z3.And((c.ret < 0) == (c.a[k] < c.b[k]), (c.ret > 0) == (c.a[k] > c.b[k])))))],
  inv=lambda L: [('equal so far %s' % k, FA(0, x, lambda m: L.c.a[m] == L.c.b[m], pats=[lambda m: L.c.a[m], lambda m: L.c.b[m]])) for k, x in L.ints])


def nf_free(c, e, orient):
    f = c.fa[e]
    return (f.pos_face if orient == POS else f.neg_face) == -1


def nf_none(c, orient, lo, hi):
    return FA(lo, hi, lambda e: Not(nf_free(c, e, orient)), pats=[lambda e: c.fa[e].pos_face if orient == POS else c.fa[e].neg_face])


def nf_post(c):
    n, s, o = c.pd.nedges, c.se[0], c.so[0]
    s1, o1 = c.se_[0], c.so_[0]
    al = c.all_[0] != 0
    return [('all assigned', al == z3.If(o == POS, z3.And(nf_none(c, POS, s + 1, n), nf_none(c, NEG, zi(0), n)), nf_none(c, NEG, s + 1, n))),
            ('at the end', Imp(al, z3.And(s1 == 0, o1 == UNSET))),
            ('next positive side', Imp(z3.And(Not(al), o1 == POS), z3.And(o == POS, s1 > s, s1 < n, nf_free(c, s1, POS), nf_none(c, POS, s + 1, s1)))),
            ('next negative side', Imp(z3.And(Not(al), o1 != POS), z3.And(o1 == NEG, s1 < n, nf_free(c, s1, NEG),
                                                                        z3.If(o == POS, z3.And(nf_none(c, POS, s + 1, n), nf_none(c, NEG, zi(0), s1)), z3.And(s1 > s, nf_none(c, NEG, s + 1, s1)))))),
            ('flag', c.all_[0] <= 1)]


C('pdint_next_face_unassigned_edge_or', ['pd', 'fa', 'se', 'so', 'all'],
  requires=lambda c: [c.pd.valid(), c.fa.valid(c.pd.nedges), c.se.valid(), c.so.valid(), c.all.valid(), c.se[0] < c.pd.nedges, isor(c.so[0])] + apart(c.se, c.so, c.pd, c.all, c.fa),
  modifies=lambda c: [Ref(c.se.elem(0)), Ref(c.so.elem(0)), Ref(c.all.elem(0))], ensures=nf_post,
  inv=lambda L: [('pos %s' % k, nf_none(L.c, POS, L.c.se[0] + 1, x)) for k, x in L.ints] + [('neg %s' % k, nf_none(L.c, NEG, zi(0), x)) for k, x in L.ints] + [('neg2 %s' % k, nf_none(L.c, NEG, L.c.se[0] + 1, x)) for k, x in L.ints] +
                [('allpos', nf_none(L.c, POS, L.c.se[0] + 1, L.c.pd.nedges))])

# ------------------------------------------------------------------ sorting the crossings
HALF = 1 << 31


def sortpd(eng, mem):
    """the diagram whose crossings are being compared (a file-scope pointer)"""
    g = eng.global_ptr(None, 'pdint_cross_index_cmp_glob')
    return PtrView(mem, g, g.T)[0]


def lexless(a, b, orequal=False):
    out = z3.BoolVal(orequal)
    for k in (3, 2, 1, 0):
        out = Or(a.edge[k] < b.edge[k], z3.And(a.edge[k] == b.edge[k], out))
    return out


def ici(c, nm):
    return typed(c, nm, 'pd_idx_t')


def ic_pre(c):
    pd = sortpd(c.eng, c.old)
    return [pd.valid(), pd.cross.block(pd.ncross), ici(c, 'A').valid(), ici(c, 'B').valid(), ici(c, 'A')[0] < pd.ncross, ici(c, 'B')[0] < pd.ncross] + \
        [pd.cross[ici(c, n)[0]].edge[k] < HALF for n in 'AB' for k in range(4)]


C('pdint_cross_index_cmp', ['A', 'B'], argtypes=['void *', 'void *'], requires=ic_pre,
  ensures=lambda c: (lambda pd: [('order', z3.And((c.ret <= 0) == lexless(pd.cross[ici(c, 'A')[0]], pd.cross[ici(c, 'B')[0]], True), (c.ret < 0) == lexless(pd.cross[ici(c, 'A')[0]], pd.cross[ici(c, 'B')[0]])))])(sortpd(c.eng, c.old)),
  opts={'order': lambda A, B: (lambda pd: lexless(pd.cross[A.value()], pd.cross[B.value()], True))(sortpd(A.mem.eng, A.mem))})
