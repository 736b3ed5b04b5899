"""Constraint lists and release of curves (plCurve.c).
Ghost view of a NULL-terminated list: Cell(k) is the k-th node, Pos its inverse, CstN the length."""
from common import *
from c_plc import *
CONTRACTS = {}
I = z3.IntSort()
Cell = z3.Function('Cell', I, I)
Pos = z3.Function('Pos', I, I)
CstN = z3.Int('CstN')
QCell = z3.Function('QCell', I, I)
QPos = z3.Function('QPos', I, I)
QN = z3.Int('QN')


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def node(c, o, mem, tn='plc_constraint_type'):
    T = c.eng.types.named(tn)
    return PtrView(mem, PV(o, zi(0), T), T)


def is_list(c, head, mem, cell=Cell, pos=Pos, n=None, tn='plc_constraint_type'):
    n = CstN if n is None else n
    nd = lambda k: node(c, cell(k), mem, tn)
    nx = lambda k: nd(k).next
    return [n >= 0, n < (1 << 24), head.idx == 0, head.obj == z3.If(n > 0, cell(0), zi(0)),
            FA(0, n, lambda k: z3.And(cell(k) > 900, cell(k) <= mem.ctr, cnt(cell(k)) >= 1, Not(mem.freed(cell(k))), pos(cell(k)) == k, nx(k).idx == 0, nx(k).obj == z3.If(k + 1 < n, cell(k + 1), zi(0))), pats=[lambda k: cell(k)])]


def at(p, cell=Cell, pos=Pos, n=None):
    """cursor p is NULL or on the list; (position, fact)"""
    n = CstN if n is None else n
    P = z3.If(p.null, n, pos(p.obj))
    return P, z3.And(p.idx == 0, Or(p.null, z3.And(0 <= pos(p.obj), pos(p.obj) < n, cell(pos(p.obj)) == p.obj)))


def is_cst(p, tn='plc_constraint_type'):
    return p.ct.k == 'struct' and p.ct.key() == tn


def cst_cursor(L):
    return [(k, p) for k, p in L.ptrs if is_cst(p)]


def cover(c, k, mem):
    nd = node(c, Cell(k), mem)
    return z3.And(nd.cmp == c.cp, nd.vert <= c.vt, c.vt < nd.vert + nd.num_verts)


def small(c, mem):
    nd = lambda k: node(c, Cell(k), mem)
    return FA(0, CstN, lambda k: z3.And(nd(k).vert >= 0, nd(k).num_verts >= 0, nd(k).vert < (1 << 24), nd(k).num_verts < (1 << 24)), pats=[lambda k: Cell(k)])


C('plc_is_constrained', ['L', 'cp', 'vt', 'constraint'],
  requires=lambda c: [c.L.valid()] + is_list(c, c.L.cst, c.old) + [small(c, c.old), Or(c.constraint.null, c.constraint.valid())],
  modifies=lambda c: [Ref(c.constraint.elem(0))],
  ensures=lambda c: [('found iff some constraint covers the vertex', c.ret == EX(0, CstN, lambda k: cover(c, k, c.old))),
                     ('the constraint reported covers the vertex', Imp(z3.And(c.ret, c.constraint.nonnull), (lambda q: z3.And(q.nonnull, at(q)[1], cover(c, Pos(q.obj), c.old)))(c.constraint_.elem(0).value()))),
                     ('nothing reported otherwise', Imp(z3.And(Not(c.ret), c.constraint.nonnull), c.constraint_.elem(0).value().obj == c.constraint.elem(0).value().obj))],
  inv=lambda L: [z for nm, p in cst_cursor(L) for P, f in [at(p)] for z in [
      ('cursor %s' % nm, f), ('none so far %s' % nm, FA(0, P, lambda k: Not(cover(L.c, k, L.c.old)), pats=[lambda k: Cell(k)]))]])


# ------------------------------------------------------------------ release
def in_list(o, n=None, cell=Cell, pos=Pos, N=None):
    return z3.And(0 <= pos(o), pos(o) < (CstN if n is None else n), cell(pos(o)) == o)


def only_freed(L, s):
    o = z3.Int('uo')
    pat = z3.Select(L.cur.arr(FREED), o, z3.IntVal(0), z3.IntVal(0))
    if z3.is_const(pat):
        return None
    return z3.ForAll([o], Imp(z3.And(L.cur.freed(o), Not(L.old.freed(o))), s(o)), patterns=[pat])


def list_released(L, p, nm, cell=Cell, pos=Pos, n=None):
    n = CstN if n is None else n
    P, f = at(p, cell, pos, n)
    return [('on list %s' % nm, f), ('released %s' % nm, FA(0, P, lambda k: L.cur.freed(cell(k)), pats=[lambda k: cell(k)])),
            ('kept %s' % nm, FA(P, n, lambda k: Not(L.cur.freed(cell(k))), pats=[lambda k: cell(k)]))], P


def rm_inv(L):
    M = L.c.arg('L', L.cur)
    out, P = list_released(L, M.cst, 'head')
    out += [('only nodes', only_freed(L, lambda o: in_list(o, P)))]
    out += [('same %s' % k, z3.And(p.obj == M.cst.obj, p.idx == 0)) for k, p in cst_cursor(L)]
    return out


C('plc_remove_all_constraints', ['L'],
  requires=lambda c: [c.L.valid()] + is_list(c, c.L.cst, c.old) + [Not(in_list(c.L.obj))],
  modifies=lambda c: [Ref(c.L.elem(0))], frees=lambda c: [lambda o: in_list(o)],
  ensures=lambda c: [('no constraints', c.L_.cst.null), ('rest kept', z3.And(c.L_.nc == c.L.nc, c.L_.cp.obj == c.L.cp.obj, c.L_.quant.obj == c.L.quant.obj, c.L_.G.obj == c.L.G.obj))],
  inv=rm_inv)

# codes keep the owned blocks apart: 0 header, 1 strands, 4k+2 vertices, 4k+3 colours, negative: list nodes
Own = z3.Function('OwnC', I, I)


def rel_req(c):
    L = c.L
    cs = L.cp
    Q = lambda k: QCell(k)
    return ([L.valid(), L.idx == 0, L.obj > 900, L.G.null, Own(L.obj) == 0, Or(L.cp.null, z3.And(L.cp.obj > 900, L.cp.block(L.nc), Own(L.cp.obj) == 1)), L.nc >= 0, L.nc < (1 << 24),
             Imp(L.cp.nonnull, FA(0, L.nc, lambda i: z3.And(Or(cs[i].vt.null, z3.And(cs[i].vt.idx == 1, cs[i].vt.obj > 900, Not(cs[i].vt.freed), Own(cs[i].vt.obj) == 4 * i + 2)),
                                                        Or(cs[i].clr.null, z3.And(cs[i].clr.idx == 0, cs[i].clr.obj > 900, Not(cs[i].clr.freed), Own(cs[i].clr.obj) == 4 * i + 3))),
                                  pats=[lambda i: cs[i].vt.obj, lambda i: cs[i].clr.obj]))]
            + is_list(c, L.cst, c.old) + is_list(c, L.quant, c.old, QCell, QPos, QN, 'plc_vert_quant_type')
            + [FA(0, CstN, lambda k: Own(Cell(k)) == -2 * k - 1, pats=[lambda k: Cell(k)]), FA(0, QN, lambda k: Own(QCell(k)) == -2 * k - 2, pats=[lambda k: QCell(k)])])


def vbuf(L, o, n=None):
    k = (Own(o) - 2) / 4
    return z3.And(L.cp.nonnull, o != 0, 0 <= k, k < (L.nc if n is None else n), Or(z3.And((Own(o) - 2) % 4 == 0, o == L.cp[k].vt.obj), z3.And((Own(o) - 2) % 4 == 1, o == L.cp[k].clr.obj)))


def q_in(o, n=None):
    return in_list(o, QN if n is None else n, QCell, QPos)


def plc_set(L, o):
    return Or(o == L.obj, z3.And(L.cp.nonnull, o == L.cp.obj), vbuf(L, o), in_list(o), q_in(o))


def rel_inv(Lp):
    L = Lp.c.L
    M = Lp.c.arg('L', Lp.cur)
    out = []
    for k, x in Lp.ints:
        out += [('buffers %s' % k, Imp(L.cp.nonnull, FA(0, x, lambda i: z3.And(Or(L.cp[i].vt.null, Lp.cur.freed(L.cp[i].vt.obj)), Or(L.cp[i].clr.null, Lp.cur.freed(L.cp[i].clr.obj))), pats=[lambda i: L.cp[i].vt.obj, lambda i: L.cp[i].clr.obj]))),
                ('rest %s' % k, FA(x, L.nc, lambda i: z3.And(M.cp[i].vt.obj == L.cp[i].vt.obj, M.cp[i].vt.idx == L.cp[i].vt.idx, M.cp[i].clr.obj == L.cp[i].clr.obj, M.cp[i].clr.idx == L.cp[i].clr.idx), pats=[lambda i: M.cp[i].vt.obj, lambda i: M.cp[i].clr.obj])),
                ('only buffers %s' % k, only_freed(Lp, lambda o: vbuf(L, o, x)))]
    a, P = list_released(Lp, M.cst, 'cst')
    b, Q = list_released(Lp, M.quant, 'qnt', QCell, QPos, QN)
    out += a + b
    bufs = FA(0, L.nc, lambda i: z3.And(Or(L.cp[i].vt.null, Lp.cur.freed(L.cp[i].vt.obj)), Or(L.cp[i].clr.null, Lp.cur.freed(L.cp[i].clr.obj))), pats=[lambda i: L.cp[i].vt.obj, lambda i: L.cp[i].clr.obj])
    out += [('all buffers', Imp(L.cp.nonnull, z3.And(bufs, Lp.cur.freed(L.cp.obj)))), ('cst null', M.cst.null),
            ('only cst', only_freed(Lp, lambda o: Or(z3.And(L.cp.nonnull, o == L.cp.obj), vbuf(L, o), in_list(o, P)))),
            ('only qnt', only_freed(Lp, lambda o: Or(z3.And(L.cp.nonnull, o == L.cp.obj), vbuf(L, o), in_list(o), q_in(o, Q))))]
    return out


C('plc_free', ['L'],
  requires=lambda c: [Or(c.L.null, z3.And(*rel_req(c)))],
  modifies=lambda c: [Obj(c.L), Obj(c.L.cp)], frees=lambda c: [lambda o: z3.And(c.L.nonnull, plc_set(c.L, o))],
  inv=rel_inv)


# ------------------------------------------------------------------ colours
OwnK = z3.Function('OwnK', I, I)


def clr_ok(L, i):
    s = L.cp[i]
    return z3.And(s.cc >= 0, s.cc < (1 << 24), Imp(s.cc > 0, z3.And(s.clr.block(s.cc), OwnK(s.clr.obj) == i)))


def wf_clr(L):
    return [L.valid(), L.nc >= 0, L.nc < (1 << 24), L.cp.block(L.nc), FA(0, L.nc, lambda i: clr_ok(L, i), pats=[lambda i: L.cp[i].clr.obj, lambda i: L.cp[i].cc])]


def clrpred(L):
    def f(key):
        if key[0] != CKEY:
            return None
        return lambda o, i, j: (lambda k: z3.And(0 <= k, k < L.nc, L.cp[k].clr.obj == o, 0 <= i, i < L.cp[k].cc))(OwnK(o))
    return ('pred', f)


def coloured(c, M, x):
    i, j = z3.Ints('zi zj')
    e = M.cp[i].clr[j]
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < x, 0 <= j, j < c.inLink.cp[i].cc), ceq(e, c.inColor)), patterns=[e.r, e.g, e.b, e.alpha])


def setc_inv(L):
    c = L.c
    M = c.arg('inLink', L.cur)
    out = [('done %s' % k, coloured(c, M, x)) for k, x in L.allints]
    for k, x in L.ints:
        for k2, y in L.outer:
            out.append(('row %s %s' % (k, k2), FA(0, x, lambda j: ceq(M.cp[y].clr[j], c.inColor), pats=[lambda j: M.cp[y].clr[j].r, lambda j: M.cp[y].clr[j].g, lambda j: M.cp[y].clr[j].b, lambda j: M.cp[y].clr[j].alpha])))
    return out


C('plc_set_color', ['inLink', 'inColor'], opts={'private': lambda c: [OwnK(c.inColor.pv.o) == -1]}, requires=lambda c: wf_clr(c.inLink), modifies=lambda c: [clrpred(c.inLink)],
  ensures=lambda c: [('one colour', coloured(c, c.inLink_, c.inLink.nc))], inv=setc_inv)


def resize_req(c):
    L = c.L
    s = L.cp[c.cp]
    return [L.valid(), L.cp.block(L.nc), 0 <= c.cp, c.cp < L.nc, c.cc >= 0, c.cc < (1 << 24), s.cc >= 0, s.cc < (1 << 24),
            s.clr.obj != L.obj, s.clr.obj != L.cp.obj, Or(z3.And(s.clr.null, s.cc == 0), z3.And(s.clr.block(s.cc), s.clr.obj > 900))]


def resize_ens(c):
    o, n = c.L.cp[c.cp], c.L_.cp[c.cp]
    m = z3.If(o.cc < c.cc, o.cc, c.cc)
    pz = lambda f: [lambda j: f(j).r, lambda j: f(j).g, lambda j: f(j).b, lambda j: f(j).alpha]
    P = pz(lambda j: n.clr[j])
    zero = lambda e: z3.And(e.r == 0, e.g == 0, e.b == 0, e.alpha == 0)
    return [('count', n.cc == c.cc), ('no buffer', Imp(c.cc == 0, n.clr.null)), ('buffer', Imp(c.cc > 0, z3.And(n.clr.block(c.cc), c.fresh_obj(n.clr)))),
            ('blank colours', Imp(z3.And(c.cc > 0, o.cc == 0), FA(0, c.cc, lambda j: zero(n.clr[j]), pats=P))),
            ('one colour spread', Imp(z3.And(c.cc > 0, o.cc == 1), FA(0, c.cc, lambda j: ceq(n.clr[j], o.clr[0]), pats=P))),
            ('colours kept', Imp(z3.And(c.cc > 0, o.cc > 1), FA(0, m, lambda j: ceq(n.clr[j], o.clr[j]), pats=P)))]


C('plc_resize_colorbuf', ['L', 'cp', 'cc'], requires=resize_req, allocs=True, ensures=resize_ens,
  modifies=lambda c: [RngF(c.L.cp, c.cp, c.cp + 1, 'cc'), RngF(c.L.cp, c.cp, c.cp + 1, 'clr')], frees=lambda c: [lambda o: z3.And(o != 0, o == c.L.cp[c.cp].clr.obj)],
  inv=lambda L: [('spread %s' % k, FA(0, x, lambda j: ceq(n.clr[j], L.c.L.cp[L.c.cp].clr[0]), pats=[lambda j: n.clr[j].r, lambda j: n.clr[j].g, lambda j: n.clr[j].b, lambda j: n.clr[j].alpha])) for k, x in L.ints for n in [L.c.arg('L', L.cur).cp[L.c.cp]]])


# ------------------------------------------------------------------ dropping a component
def streq(a, b):
    return z3.And(a.nv == b.nv, a.open == b.open, a.cc == b.cc, a.vt.obj == b.vt.obj, a.vt.idx == b.vt.idx, a.clr.obj == b.clr.obj, a.clr.idx == b.clr.idx)


def stpats(M):
    return [lambda i: M.cp[i].nv, lambda i: M.cp[i].open, lambda i: M.cp[i].cc, lambda i: M.cp[i].vt.obj, lambda i: M.cp[i].clr.obj]


C('plc_drop_component', ['L', 'cmp'],
  requires=lambda c: [c.L.valid(), c.L.G.null, c.L.nc > 0, c.L.nc < (1 << 24), c.L.cp.block(c.L.nc), 0 <= c.cmp, c.cmp < c.L.nc] + (lambda s: [
      s.vt.idx == 1, s.vt.obj > 900, Not(s.vt.freed), Or(s.clr.null, z3.And(s.clr.idx == 0, s.clr.obj > 900, Not(s.clr.freed))), s.vt.obj != s.clr.obj,
      s.vt.obj != c.L.cp.obj, s.clr.obj != c.L.cp.obj, s.vt.obj != c.L.obj, s.clr.obj != c.L.obj])(c.L.cp[c.cmp]),
  modifies=lambda c: [('ref', c.L.elem(0)), Rng(c.L.cp, c.cmp, c.L.nc)], frees=lambda c: [lambda o: z3.And(o != 0, Or(o == c.L.cp[c.cmp].vt.obj, o == c.L.cp[c.cmp].clr.obj))],
  ensures=lambda c: [('one fewer', z3.And(c.L_.nc == c.L.nc - 1, c.L_.cp.obj == c.L.cp.obj, c.L_.cp.idx == 0, c.L_.cst.obj == c.L.cst.obj, c.L_.quant.obj == c.L.quant.obj, c.L_.G.obj == c.L.G.obj)),
                     ('others kept in order', FA(c.cmp, c.L.nc - 1, lambda i: streq(c.L_.cp[i], c.L.cp[i + 1]), pats=stpats(c.L_)))],
  inv=lambda L: [z for k, x in L.ints for M in [L.c.arg('L', L.cur)] for z in [
      ('moved %s' % k, FA(L.c.cmp, x, lambda i: streq(M.cp[i], L.c.L.cp[i + 1]), pats=stpats(M))),
      ('to move %s' % k, FA(x + 1, L.c.L.nc, lambda i: streq(M.cp[i], L.c.L.cp[i]), pats=stpats(M)))]])


# ------------------------------------------------------------------ copying
def cpy_req(c):
    L = c.L
    return wf_vt(L) + [FA(0, L.nc, lambda i: z3.And(L.cp[i].cc >= 0, L.cp[i].cc <= L.cp[i].nv, Imp(L.cp[i].cc > 0, L.cp[i].clr.block(L.cp[i].cc))), pats=[lambda i: L.cp[i].clr.obj, lambda i: L.cp[i].cc]),
                       L.G.null] + is_list(c, L.cst, c.old)


def csteq(a, b):
    return z3.And(a.kind == b.kind, a.cmp == b.cmp, a.vert == b.vert, a.num_verts == b.num_verts, veq(a.vect[0], b.vect[0]), veq(a.vect[1], b.vect[1]))


def cst_copied(c, head, mem, x):
    """the first x nodes of the copy (consecutive objects from head) hold the same constraints"""
    nn = lambda k: node(c, head + k, mem)
    on = lambda k: node(c, Cell(k), c.old)
    return FA(0, x, lambda k: z3.And(csteq(nn(k), on(k)), cnt(head + k) >= 1, Not(mem.freed(head + k)), nn(k).next.idx == 0), pats=[lambda k: Cell(k)])


def cst_links(c, head, mem, x):
    nn = lambda k: node(c, head + k, mem)
    return FA(0, x, lambda k: z3.And(nn(k).next.obj == head + k + 1, Pos(Cell(k)) == k), pats=[lambda k: Cell(k)])


def cst_all(c, M, mem):
    head = M.cst.obj
    return [('no constraints', Imp(CstN == 0, M.cst.null)), ('constraint list', Imp(CstN > 0, z3.And(M.cst.idx == 0, head > c.old.ctr, head + CstN - 1 <= mem.ctr))),
            ('constraints equal', Imp(CstN > 0, cst_copied(c, head, mem, CstN))), ('constraint links', Imp(CstN > 0, z3.And(cst_links(c, head, mem, CstN - 1), node(c, head + CstN - 1, mem).next.null)))]


def buf(p):
    """p's buffer from its start"""
    return PtrView(p.mem, PV(p.pv.o, zi(0), p.pv.T), p.ct)


def vt_copied(c, M, x, lab='vi'):
    i, j = z3.Ints('%s %sj' % (lab, lab))
    e = buf(M.cp[i].vt)[j]
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < x, 0 <= j, j <= c.L.cp[i].nv + 1), veq(e, buf(c.L.cp[i].vt)[j])), patterns=[e.c[q] for q in range(3)])


def vt_row(c, M, i, y):
    e = lambda j: buf(M.cp[i].vt)[j]
    return FA(0, y + 1, lambda j: veq(e(j), buf(c.L.cp[i].vt)[j]), pats=[lambda j: e(j).c[0], lambda j: e(j).c[1], lambda j: e(j).c[2]])


def clr_copied(c, M, x):
    i, j = z3.Ints('ki kj')
    e = M.cp[i].clr[j]
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < x, 0 <= j, j < c.L.cp[i].cc), ceq(e, c.L.cp[i].clr[j])), patterns=[e.r, e.g, e.b, e.alpha])


def clr_row(c, M, i, y):
    e = lambda j: M.cp[i].clr[j]
    return FA(0, y, lambda j: ceq(e(j), c.L.cp[i].clr[j]), pats=[lambda j: e(j).r, lambda j: e(j).g, lambda j: e(j).b, lambda j: e(j).alpha])


class _N:
    """stand-in context so that new_parts can be stated over the original's counts"""
    def __init__(s, c):
        s.old = c.old
        L = c.L
        class A:
            def __init__(q, f): q.f = f
            def __getitem__(q, i): return q.f(i)
        s.nv, s.cc, s.open = A(lambda i: L.cp[i].nv), A(lambda i: L.cp[i].cc), A(lambda i: L.cp[i].open)


def copy_shape(c, M, mem):
    n = c.L.nc
    return [('curve', z3.And(M.block(1), M.obj > c.old.ctr, M.nc == n, M.cp.block(n), M.cp.obj > c.old.ctr, M.cp.obj != M.obj, M.G.null, M.quant.null))] + new_parts(_N(c), M, mem, n) + [
        ('separate vertices', vt_order(M, n)), ('separate colours', clr_order(M, n))]


def cpy_inv(L):
    c = L.c
    out = []
    T = lambda o, t: o.ct.k == 'struct' and o.ct.key() == t
    for an, a in enumerate(L.objs):
        if a.ct.k == 'int':
            for k, x in L.ints:
                out += [('nv %d %s' % (an, k), FA(0, x, lambda i: a[i] == c.L.cp[i].nv, pats=[lambda i: a[i]])), ('cc %d %s' % (an, k), FA(0, x, lambda i: a[i] == c.L.cp[i].cc, pats=[lambda i: a[i]])),
                        ('open %d %s' % (an, k), FA(0, x, lambda i: (a[i] != 0) == (c.L.cp[i].open != 0), pats=[lambda i: a[i]]))]
    for M in L.objs:
        if not T(M, 'plc_type'):
            continue
        cur = [p for k, p in L.ptrs if is_cst(p)]
        head = M.cst.obj
        out += [('head', z3.And(M.cst.idx == 0, head > c.old.ctr, M.cst.nonnull))]
        for pn, p in enumerate(cur):
            P, f = at(p)
            out += [('old cursor %d' % pn, z3.And(f, p.nonnull))]
            for q in cur:
                if p is q:
                    continue
                out += [('in step %d' % pn, z3.And(q.obj == head + Pos(p.obj), q.idx == 0, L.cur.ctr == q.obj)), ('last link %d' % pn, node(c, head + Pos(p.obj), L.cur).next.null), ('copied %d' % pn, cst_copied(c, head, L.cur, Pos(p.obj) + 1)), ('linked %d' % pn, cst_links(c, head, L.cur, Pos(p.obj)))]
        for k, x in L.allints:
            out += [('vts %s' % k, vt_copied(c, M, x)), ('clrs %s' % k, clr_copied(c, M, x))]
        for k, x in L.ints:
            for k2, y in L.outer:
                out += [('vrow %s %s' % (k, k2), vt_row(c, M, y, x)), ('crow %s %s' % (k, k2), clr_row(c, M, y, x)), ('vrow all %s %s' % (k, k2), vt_row(c, M, y, c.L.cp[y].nv + 1))]
    return out


C('plc_copy', ['L'], requires=cpy_req, allocs=True, opts={'fresh_ret': True},
  ensures=lambda c: copy_shape(c, c.ret, c.new) + cst_all(c, c.ret, c.new) + [('vertices equal', vt_copied(c, c.ret, c.L.nc)), ('colours equal', clr_copied(c, c.ret, c.L.nc))],
  inv=cpy_inv)
