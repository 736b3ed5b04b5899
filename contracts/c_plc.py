"""plCurve storage and numbering (plCurve.c)."""
from common import *
CONTRACTS = {}


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def wf_cp(L):
    """L is a curve with nc components"""
    return [L.valid(), L.nc >= 1, L.nc < (1 << 24), L.cp.block(L.nc), FA(0, L.nc, lambda i: z3.And(L.cp[i].nv >= 1, L.cp[i].nv < (1 << 24)))]


def strand_edges(L, i):
    return z3.If(L.cp[i].open != 0, L.cp[i].nv - 1, L.cp[i].nv)


def vsum(c):
    return ghost_sum(c, 'VertsBefore', lambda k: c.L.cp[k].nv)


def esum(c):
    return ghost_sum(c, 'EdgesBefore', lambda k: strand_edges(c.L, k))


def sum_mono(S, n):
    i = z3.Int('mi')
    return z3.ForAll([i], Imp(z3.And(0 <= i, i <= n), z3.And(S(i) >= i, S(i) <= S(n))), patterns=[S(i)])


def upto(S, n, lim=1 << 30):
    """the running totals do not exceed lim"""
    i = z3.Int('mi')
    return z3.ForAll([i], Imp(z3.And(0 <= i, i <= n), z3.And(S(i) >= 0, S(i) <= lim)), patterns=[S(i)])


def vreq(c):
    return wf_cp(c.L) + [upto(vsum(c)[0], c.L.nc)]


def accs(S, L, extra=lambda k: 0):
    return [('total %s %s' % (k, k2), x == S(y) + extra(k)) for k, x in L.ints for k2, y in L.ints if k != k2]


for fn, sm in (('plc_num_edges', esum), ('plc_num_verts', vsum)):
    C(fn, ['L'], requires=lambda c, sm=sm: wf_cp(c.L) + [upto(sm(c)[0], c.L.nc)], defs=lambda c, sm=sm: sm(c)[1],
      ensures=lambda c, sm=sm: [('total', c.ret == sm(c)[0](c.L.nc))],
      inv=lambda L, sm=sm: accs(sm(L.c)[0], L))

C('plc_edges', ['L', 'component_edges'],
  requires=lambda c: wf_cp(c.L) + [upto(esum(c)[0], c.L.nc), Or(c.component_edges.null, c.component_edges.block(c.L.nc))], defs=lambda c: esum(c)[1],
  modifies=lambda c: [Obj(c.component_edges)],
  ensures=lambda c: [('total', c.ret == esum(c)[0](c.L.nc)), ('per component', Imp(c.component_edges.nonnull, FA(0, c.L.nc, lambda i: c.component_edges_[i] == strand_edges(c.L, i), pats=[lambda i: c.component_edges_[i]])))],
  inv=lambda L: accs(esum(L.c)[0], L) + [('stored %s' % k, Imp(L.c.component_edges.nonnull, FA(0, x, lambda i: L.c.arg('component_edges', L.cur)[i] == strand_edges(L.c.L, i), pats=[lambda i: L.c.arg('component_edges', L.cur)[i]]))) for k, x in L.ints])


def wrapped(c):
    nv = c.L.cp[c.cp].nv
    return z3.If(c.L.cp[c.cp].open != 0, z3.If(c.vt < 0, zi(0), z3.If(c.vt >= nv, nv - 1, c.vt)), c.vt % nv)


C('plc_vertex_num', ['L', 'cp', 'vt'], opts={'mod': True},
  requires=lambda c: vreq(c) + [0 <= c.cp, c.cp < c.L.nc, c.vt > -(1 << 30), c.vt < (1 << 30)], defs=lambda c: vsum(c)[1],
  ensures=lambda c: [('dictionary position', c.ret == vsum(c)[0](c.cp) + wrapped(c))],
  inv=lambda L: [('same vertex %s' % k, z3.And(x % L.c.L.cp[L.c.cp].nv == L.c.vt % L.c.L.cp[L.c.cp].nv, x < L.c.L.cp[L.c.cp].nv + z3.If(L.c.vt > 0, L.c.vt, zi(0)))) for k, x in L.ints] +
                [('offset %s %s' % (k, k2), x == vsum(L.c)[0](y) + wrapped(L.c)) for k, x in L.ints for k2, y in L.ints if k != k2])


def numreq(c):
    return vreq(c) + [c.wrapVt >= 0, c.wrapVt < vsum(c)[0](c.L.nc)]


def numinv(L):
    S = vsum(L.c)[0]
    w = L.c.wrapVt
    return [('offset %s %s' % (k, k2), z3.And(x == w - S(y), x >= 0)) for k, x in L.ints for k2, y in L.ints if k != k2] + [('passed %s' % k, S(x) <= w) for k, x in L.ints]


C('plc_cp_num', ['L', 'wrapVt'], requires=numreq, defs=lambda c: vsum(c)[1],
  ensures=lambda c: [('component', z3.And(0 <= c.ret, c.ret < c.L.nc, vsum(c)[0](c.ret) <= c.wrapVt, c.wrapVt < vsum(c)[0](c.ret + 1)))], inv=numinv)
C('plc_vt_num', ['L', 'wrapVt'], requires=numreq, defs=lambda c: vsum(c)[1],
  ensures=lambda c: [('vertex', EX(0, c.L.nc, lambda i: z3.And(c.ret == c.wrapVt - vsum(c)[0](i), 0 <= c.ret, c.ret < c.L.cp[i].nv)))], inv=numinv)

# ------------------------------------------------------------------ vertex storage
OwnV = z3.Function('OwnV', z3.IntSort(), z3.IntSort())    # component owning a vertex buffer
OwnC = z3.Function('OwnC', z3.IntSort(), z3.IntSort())    # component owning a colour buffer
VKEY, CKEY, SKEY = 'plc_vector_type', 'plc_color_type', 'plc_strand_type'


def veq(a, b):
    return z3.And(*[a.c[k] == b.c[k] for k in range(3)])


def ceq(a, b):
    return z3.And(a.r == b.r, a.g == b.g, a.b == b.b, a.alpha == b.alpha)


def strand_ok(L, i):
    s = L.cp[i]
    return z3.And(s.nv >= 1, s.nv < (1 << 24), s.vt.idx == 1, s.vt.obj > 0, s.vt.obj <= s.vt.mem.ctr, cnt(s.vt.obj) >= s.nv + 2, Not(s.vt.freed), OwnV(s.vt.obj) == i)


def wf_vt(L):
    """every component has its own buffer of nv vertices and two hidden ones around them"""
    return [L.valid(), L.nc >= 1, L.nc < (1 << 24), L.cp.block(L.nc),
            FA(0, L.nc, lambda i: strand_ok(L, i), pats=[lambda i: L.cp[i].vt.obj, lambda i: L.cp[i].nv])]


def isvt(L, o, n=None):
    k = OwnV(o)
    return z3.And(0 <= k, k < (L.nc if n is None else n), L.cp[k].vt.obj == o)


def vtpred(L, rng):
    """region: elements of the vertex buffers of L selected by rng(component, index in buffer)"""
    def f(key):
        if key[0] != VKEY:
            return None
        return lambda o, i, j: z3.And(isvt(L, o), rng(OwnV(o), i))
    return ('pred', f)


def eff_open(L, i):
    return Or(L.cp[i].open != 0, L.cp[i].nv < 3)


def hidden(L, k, i):
    return Or(i == 0, i == L.cp[k].nv + 1)


def wrap_of(M, L, i, nv=None):
    """hidden vertices of component i: M memory view after, L interior vertices"""
    nv = L.cp[i].nv
    return z3.And(Imp(z3.And(eff_open(L, i), nv >= 2), z3.And(veq(M.cp[i].vt[-1], L.cp[i].vt[1]), veq(M.cp[i].vt[nv], L.cp[i].vt[nv - 2]))),
                  Imp(Not(eff_open(L, i)), z3.And(veq(M.cp[i].vt[-1], L.cp[i].vt[nv - 1]), veq(M.cp[i].vt[nv], L.cp[i].vt[0]))))


def P_vt(M):
    return [lambda i: M.cp[i].vt.obj, lambda i: M.cp[i].nv, lambda i: M.cp[i].open]


C('plc_fix_wrap', ['L'], requires=lambda c: wf_vt(c.L),
  modifies=lambda c: [RngF(c.L.cp, 0, c.L.nc, 'open'), vtpred(c.L, lambda k, i: hidden(c.L, k, i))],
  ensures=lambda c: [('short components are open', FA(0, c.L.nc, lambda i: (c.L_.cp[i].open != 0) == eff_open(c.L, i), pats=[lambda i: c.L_.cp[i].open])),
                     ('hidden vertices', FA(0, c.L.nc, lambda i: wrap_of(c.L_, c.L, i), pats=P_vt(c.L)))],
  inv=lambda Lp: [x for k, x in Lp.ints for M in [Lp.c.arg('L', Lp.cur)] for x in (
      ('open %s' % k, FA(0, x, lambda i: (M.cp[i].open != 0) == eff_open(Lp.c.L, i), pats=[lambda i: M.cp[i].open])),
      ('open rest %s' % k, FA(x, Lp.c.L.nc, lambda i: M.cp[i].open == Lp.c.L.cp[i].open, pats=[lambda i: M.cp[i].open])),
      ('wrapped %s' % k, FA(0, x, lambda i: wrap_of(M, Lp.c.L, i), pats=P_vt(Lp.c.L))))])


# ------------------------------------------------------------------ creation
def new_parts(c, M, mem, x):
    """strands 0..x of the new curve M"""
    P = [lambda i: M.cp[i].vt.obj, lambda i: M.cp[i].nv] + ([lambda i: M.cp[i].vt.idx] if not z3.is_int_value(M.cp[0].vt.idx) else [])
    PC = [lambda i: M.cp[i].clr.obj]
    return [('counts', FA(0, x, lambda i: z3.And(M.cp[i].nv == c.nv[i], M.cp[i].cc == c.cc[i], (M.cp[i].open != 0) == (c.open[i] != 0)), pats=[lambda i: M.cp[i].nv, lambda i: M.cp[i].cc, lambda i: M.cp[i].open])),
            ('vertices', FA(0, x, lambda i: z3.And(M.cp[i].vt.idx == 1, cnt(M.cp[i].vt.obj) == c.nv[i] + 2, Not(M.cp[i].vt.freed), M.cp[i].vt.obj > c.old.ctr, M.cp[i].vt.obj <= mem.ctr), pats=P)),
            ('colours', FA(0, x, lambda i: z3.And(M.cp[i].clr.block(c.cc[i]), M.cp[i].clr.obj > c.old.ctr, M.cp[i].clr.obj <= mem.ctr), pats=PC))]


def vt_order(M, x):
    i, k = z3.Ints('coi cok')
    V = lambda q: M.cp[q].vt.obj
    return z3.ForAll([i, k], Imp(z3.And(0 <= i, i < k, k < x), V(i) < V(k)), patterns=[z3.MultiPattern(V(i), V(k))])


def clr_order(M, x):
    i, k = z3.Ints('coi cok')
    V = lambda q: M.cp[q].vt.obj
    K = lambda q: M.cp[q].clr.obj
    return z3.And(z3.ForAll([i, k], Imp(z3.And(0 <= i, i < k, k < x), K(i) < K(k)), patterns=[z3.MultiPattern(K(i), K(k))]),
                  z3.ForAll([i, k], Imp(z3.And(0 <= i, i < x, 0 <= k, k < x), V(i) != K(k)), patterns=[z3.MultiPattern(V(i), K(k))]))


def new_zero(c, M, x):
    i, j, k = z3.Ints('zi zj zk')
    e = M.cp[i].vt[j]
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < x, -1 <= j, j <= c.nv[i]), z3.And(*[e.c[q] == 0 for q in range(3)])), patterns=[e.c[q] for q in range(3)])


def new_req(c):
    n = c.components
    return [n >= 1, n < (1 << 24), c.nv.block(n), c.open.block(n), c.cc.block(n), c.nv.obj != c.cc.obj,
            FA(0, n, lambda i: z3.And(c.nv[i] >= 1, c.nv[i] < (1 << 24), c.cc[i] >= 0, c.cc[i] <= c.nv[i]))]


C('plc_new', ['components', 'nv', 'open', 'cc'], allocs=True, opts={'fresh_ret': True, 'second': True},
  requires=new_req,
  ensures=lambda c: [('curve', z3.And(c.ret.block(1), c.fresh_obj(c.ret), c.ret.nc == c.components, c.ret.cp.block(c.components), c.fresh_obj(c.ret.cp), c.ret.cp.obj != c.ret.obj)),
                     ('empty lists', z3.And(c.ret.cst.null, c.ret.quant.null, c.ret.G.null))] + new_parts(c, c.ret, c.new, c.components) + [
                         ('separate vertices', vt_order(c.ret, c.components)), ('separate colours', clr_order(c.ret, c.components)), ('vertices at the origin', new_zero(c, c.ret, c.components)),
                         ('apart', FA(0, c.components, lambda i: z3.And(c.ret.cp[i].vt.obj > c.ret.obj, c.ret.cp[i].clr.obj > c.ret.obj, c.ret.cp[i].vt.obj > c.ret.cp.obj, c.ret.cp[i].clr.obj > c.ret.cp.obj), pats=[lambda i: c.ret.cp[i].vt.obj, lambda i: c.ret.cp[i].clr.obj]))],
  inv=lambda L: [z for k, x in L.ints for M in [o for o in L.objs if o.ct.k == 'struct' and o.ct.key() == 'plc_type'] for z in
                 [('%s %s' % (l, k), f) for l, f in new_parts(L.c, M, L.cur, x)] + [
                     ('vt order %s' % k, vt_order(M, x)), ('clr order %s' % k, clr_order(M, x)), ('zero %s' % k, new_zero(L.c, M, x)),
                     ('apart %s' % k, FA(0, x, lambda i: z3.And(M.cp[i].vt.obj > M.obj, M.cp[i].clr.obj > M.obj, M.cp[i].vt.obj > M.cp.obj, M.cp[i].clr.obj > M.cp.obj), pats=[lambda i: M.cp[i].vt.obj, lambda i: M.cp[i].clr.obj]))]])
