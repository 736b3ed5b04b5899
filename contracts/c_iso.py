"""Maps between diagrams (pd_isomorphisms.c)."""
from common import *
from c_grp import wf, TABLE, ENUM, isperm
CONTRACTS = {}


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def em_wf(m):
    return [m.valid()] + wf(m.perm) + [m.orient.block(m.perm.n), m.perm.n < (1 << 24)]


def em_ors(m):
    return FA(0, m.perm.n, lambda e: isor(m.orient[e]), pats=[lambda e: m.orient[e]])


def em_in(m):
    return FA(0, m.perm.n, lambda e: m.perm.map[e] < m.perm.n, pats=[lambda e: m.perm.map[e]])


C('pdint_in_cyclic_order', ['a', 'b', 'n', 'orient'], requires=lambda c: [isor(c.orient), c.n >= 1, c.n < (1 << 30), c.a < c.n, c.b < c.n],
  ensures=lambda c: [('next in the order', c.ret == z3.If(c.orient == POS, c.b == (c.a + 1) % c.n, c.a == (c.b + 1) % c.n))])
C('pd_edgemap_ok', ['m'], requires=lambda c: em_wf(c.m), ensures=lambda c: [('accepts exactly the permutations with directions', c.ret == z3.And(isperm(c.m.perm), em_ors(c.m)))],
  opts={'only': (lambda c: [c.m.perm.n > TABLE], ENUM)},
  inv=lambda L: [('legal %s' % k, FA(0, x, lambda e: isor(L.c.m.orient[e]), pats=[lambda e: L.c.m.orient[e]])) for k, x in L.ints])
C('pd_new_edgemap', ['n'], allocs=True, requires=lambda c: [c.n.valid(), c.n[0] >= 1, c.n[0] < (1 << 24)],
  ensures=lambda c: (lambda r: [('new', z3.And(r.valid(), r.idx == 0, c.fresh_obj(r), c.fresh_obj(r.perm), r.perm.valid(), r.perm.idx == 0, c.fresh_obj(r.perm.map), c.fresh_obj(r.orient))),
                                ('room', z3.And(r.perm.n == c.n[0], r.perm.map.block(c.n[0]), r.orient.block(c.n[0]))),
                                ('identity', z3.And(FA(0, c.n[0], lambda e: r.perm.map[e] == e, pats=[lambda e: r.perm.map[e]]), FA(0, c.n[0], lambda e: r.orient[e] == POS, pats=[lambda e: r.orient[e]])))])(c.ret), opts={'fresh_ret': True},
  inv=lambda L: [('forward %s %s' % (k, q), FA(0, x, lambda e: o[e] == POS, pats=[lambda e: o[e]])) for k, x in L.ints for q, o in enumerate(L.objs) if o.ct.k == 'int'])


def cmp_em(c):
    a, b, r = c.A, c.B, c.ret
    return [('the product', z3.And(r.valid(), c.fresh_obj(r), r.perm.n == a.perm.n)),
            ('edges', FA(0, a.perm.n, lambda e: r.perm.map[e] == a.perm.map[b.perm.map[e]], pats=[lambda e: r.perm.map[e]])),
            ('directions', FA(0, a.perm.n, lambda e: r.orient[e] == ite(b.orient[e] == a.orient[b.perm.map[e]], POS, NEG), pats=[lambda e: r.orient[e]]))]


def cmp_inv(L):
    a, b = L.c.A, L.c.B
    out = []
    ms = [o for o in L.objs if o.ct.k == 'struct'] + [p for p in L.ptrs]
    for q, r in enumerate(ms):
        try:
            r.perm, r.orient
        except Exception:
            continue
        for k, x in L.ints:
            out += [('edges %s %s' % (k, q), FA(0, x, lambda e: r.perm.map[e] == a.perm.map[b.perm.map[e]], pats=[lambda e: r.perm.map[e]])),
                    ('directions %s %s' % (k, q), FA(0, x, lambda e: r.orient[e] == ite(b.orient[e] == a.orient[b.perm.map[e]], POS, NEG), pats=[lambda e: r.orient[e]]))]
    return out


C('pd_compose_edgemaps', ['A', 'B'], allocs=True, requires=lambda c: em_wf(c.A) + em_wf(c.B) + [em_ors(c.A), em_ors(c.B), em_in(c.A), em_in(c.B), c.A.perm.n == c.B.perm.n, c.A.perm.n >= 1, c.A.perm.n > TABLE],
  ensures=cmp_em, inv=cmp_inv, opts={'fresh_ret': True})


def isotopy_pre(c):
    f, a, b = c.A, c.pdA, c.pdB
    return wf_comp(a)[:2] + wf_comp(b)[:2] + wf_cross(a) + wf_cross(b) + [f.valid()] + wf(f.compperm) + em_wf(f.edgemap) + [
        f.compperm.n == a.ncomps, a.ncomps == b.ncomps, FA(0, a.ncomps, lambda i: f.compperm.map[i] < b.ncomps, pats=[lambda i: f.compperm.map[i]]),
        Imp(z3.And(a.ncross > 0, a.ncross == b.ncross), z3.And(f.crossmap.valid(), f.facemap.valid(), f.crossmap.orient == f.facemap.orient, *wf(f.crossmap.perm))),
        Imp(z3.And(a.ncross > 0, a.ncross == b.ncross), z3.And(f.crossmap.perm.n == a.ncross, FA(0, a.ncross, lambda i: f.crossmap.perm.map[i] < b.ncross, pats=[lambda i: f.crossmap.perm.map[i]])))]


def tags_kept(c, hi):
    f, a, b = c.A, c.pdA, c.pdB
    return FA(0, hi, lambda i: a.comp[i].tag == b.comp[f.compperm.map[i]].tag, pats=[lambda i: a.comp[i].tag])


def dirs_kept(c, hi):
    return FA(0, hi, lambda e: c.A.edgemap.orient[e] == POS, pats=[lambda e: c.A.edgemap.orient[e]])


def signs_kept(c, hi):
    f, a, b = c.A, c.pdA, c.pdB
    return FA(0, hi, lambda i: a.cross[i].sign == b.cross[f.crossmap.perm.map[i]].sign, pats=[lambda i: a.cross[i].sign])


C('pd_is_diagram_isotopy', ['A', 'pdA', 'pdB'], requires=isotopy_pre,
  ensures=lambda c: [('tags, directions and signs', c.ret == z3.And(c.pdA.ncross == c.pdB.ncross, tags_kept(c, c.pdA.ncomps), dirs_kept(c, c.A.edgemap.perm.n), Or(c.pdA.ncross == 0, signs_kept(c, c.pdA.ncross))))],
  inv=lambda L: [(n + ' ' + str(k), f(L.c, x)) for k, x in L.ints for n, f in (('tags', tags_kept), ('directions', dirs_kept), ('signs', signs_kept))])
