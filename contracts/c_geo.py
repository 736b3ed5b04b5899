"""Maps applied to every vertex of a curve (plCurve.c), in exact real arithmetic."""
from common import *
from c_plc import *
from c_cst import node, is_list, at, cst_cursor, Cell, Pos, CstN, in_list, is_cst
import c_vec
from fractions import Fraction
from c_vec import V, add, sub, mul, dot, cross, big, NONL
CONTRACTS = {}
KEY = ('plc_vector_type',)


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL, absmul=True)
    CONTRACTS[name] = Contract(name, args, **kw)


def buf(p):
    return PtrView(p.mem, PV(p.pv.o, zi(0), p.pv.T), p.ct)


def pt(L, i, j):
    """vertex j of component i, j counted in the buffer (0 and nv+1 are hidden)"""
    return buf(L.cp[i].vt)[j]


def curve(c, nm):
    return getattr(c, nm), getattr(c, nm + '_')


def inner(L, i, j):
    return z3.And(1 <= j, j <= L.cp[i].nv)


def mapped(M, L, x, f):
    """vertices of components below x are f of the old ones"""
    i, j = z3.Ints('gi gj')
    e = pt(M, i, j)
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < x, inner(L, i, j)), z3.And(*[e.c[q] == f(V(pt(L, i, j)))[q] for q in range(3)])), patterns=[e.c[q] for q in range(3)])


def kept(M, L, x, f=None):
    i, j = z3.Ints('gi gj')
    e = pt(M, i, j)
    return z3.ForAll([i, j], Imp(z3.And(x <= i, i < L.nc, inner(L, i, j)), veq(e, pt(L, i, j))), patterns=[e.c[q] for q in range(3)])


def row(M, L, i, y, f):
    """vertices 0..y-1 of component i are mapped"""
    e = lambda j: pt(M, i, j)
    return FA(1, y + 1, lambda j: z3.And(*[e(j).c[q] == f(V(pt(L, i, j)))[q] for q in range(3)]), pats=[lambda j, q=q: e(j).c[q] for q in range(3)])


def rowrest(M, L, i, y):
    e = lambda j: pt(M, i, j)
    return FA(y + 1, L.cp[i].nv + 1, lambda j: veq(e(j), pt(L, i, j)), pats=[lambda j, q=q: e(j).c[q] for q in range(3)])


def map_inv(nm, f):
    def g(Lp):
        c = Lp.c
        L = getattr(c, nm)
        M = c.arg(nm, Lp.cur)
        ff = lambda v: f(c, v)
        out = []
        for k, x in Lp.allints:
            out += [('mapped %s' % k, mapped(M, L, x, ff)), ('kept %s' % k, kept(M, L, x)), ('later kept %s' % k, kept(M, L, x + 1))]
        for k, x in Lp.ints:
            for k2, y in Lp.outer:
                out += [('row %s %s' % (k, k2), row(M, L, y, x, ff)), ('rest of row %s %s' % (k, k2), rowrest(M, L, y, x))]
        out += [('all mapped', mapped(M, L, L.nc, ff))]
        return out
    return g


def all_inner(L):
    return vtpred(L, lambda k, i: z3.And(0 <= i, i <= L.cp[k].nv + 1))


def geo_ens(nm, f):
    def g(c):
        L, M = curve(c, nm)
        return [('every vertex is mapped', mapped(M, L, L.nc, lambda v: f(c, v))),
                ('short components are open', FA(0, L.nc, lambda i: (M.cp[i].open != 0) == eff_open(L, i), pats=[lambda i: M.cp[i].open])),
                ('hidden vertices', FA(0, L.nc, lambda i: hid(M, L, i), pats=[lambda i: L.cp[i].vt.obj, lambda i: L.cp[i].nv, lambda i: M.cp[i].open]))]
    return g


def hid(M, L, i):
    """hidden vertices of component i agree with the new interior"""
    nv = L.cp[i].nv
    P = lambda j: pt(M, i, j)
    return z3.And(Imp(z3.And(eff_open(L, i), nv >= 2), z3.And(veq(P(0), P(2)), veq(P(nv + 1), P(nv - 1)))), Imp(Not(eff_open(L, i)), z3.And(veq(P(0), P(nv)), veq(P(nv + 1), P(1)))))


def geo(name, nm, args, f, pre=lambda c: [], ens=None, mod=None, inv=None, **kw):
    C(name, args, requires=lambda c: wf_vt(getattr(c, nm)) + pre(c),
      modifies=lambda c: [RngF(getattr(c, nm).cp, 0, getattr(c, nm).nc, 'open'), all_inner(getattr(c, nm))] + (mod(c) if mod else []),
      ensures=lambda c: geo_ens(nm, f)(c) + (ens(c) if ens else []),
      inv=lambda Lp: map_inv(nm, f)(Lp) + (inv(Lp) if inv else []), **kw)


# ---- constraints carried along
def cpred(L):
    def f(key):
        if key[0] != 'plc_constraint_type':
            return None
        return lambda o, i, j: z3.And(in_list(o), i == 0)
    return ('pred', f)


def cst_mapped(c, mem, x, g):
    """constraints before position x are g of the old ones; g gives the list of facts about (new, old)"""
    nn = lambda k: node(c, Cell(k), mem)
    on = lambda k: node(c, Cell(k), c.old)
    return FA(0, x, lambda k: z3.And(*g(c, nn(k), on(k))), pats=[lambda k: Cell(k)])


def cst_kept(c, mem, x):
    return cst_range(c, mem, x, CstN)


def cst_range(c, mem, a, b):
    nn = lambda k: node(c, Cell(k), mem)
    on = lambda k: node(c, Cell(k), c.old)
    return FA(a, b, lambda k: z3.And(V_same(nn(k), on(k))), pats=[lambda k: Cell(k)])


def V_same(a, b):
    return z3.And(veq(a.vect[0], b.vect[0]), veq(a.vect[1], b.vect[1]), cst_shape(a, b))


def cst_shape(a, b):
    return z3.And(a.kind == b.kind, a.cmp == b.cmp, a.vert == b.vert, a.num_verts == b.num_verts, a.next.obj == b.next.obj, a.next.idx == b.next.idx)


def cst_inv(g, nm):
    def f(Lp):
        c = Lp.c
        out = []
        for k, p in cst_cursor(Lp):
            P, fact = at(p)
            out += [('cursor %s' % k, fact), ('carried %s' % k, cst_mapped(c, Lp.cur, P, g)), ('to come %s' % k, cst_kept(c, Lp.cur, P))]
        return out
    return f


def pts(v, f):
    """coordinates of v after f of the old"""
    return [v.c[q] == f[q] for q in range(3)]


FIXED, LINE, PLANE = 1, 2, 3


def kinds(n, o, fx, ln, pl):
    """the constraint sits in the same place and its vectors are mapped according to its kind"""
    a, b = V(o.vect[0]), V(o.vect[1])
    same0, same1 = pts(n.vect[0], a), pts(n.vect[1], b)
    return [cst_shape(n, o), Imp(o.kind == FIXED, z3.And(*(fx(n, o) + same1))), Imp(o.kind == LINE, z3.And(*(same0 + ln(n, o)))),
            Imp(o.kind == PLANE, z3.And(*(same0 + pl(n, o) + same1[1:]))), Imp(Or(o.kind < FIXED, o.kind > PLANE), z3.And(*(same0 + same1)))]


def scale_cst(c, n, o):
    s = c.alpha
    return [cst_shape(n, o), Imp(o.kind == FIXED, z3.And(*pts(n.vect[0], mul(s, V(o.vect[0]))))),
            Imp(o.kind == LINE, z3.And(*(pts(n.vect[0], V(o.vect[0])) + pts(n.vect[1], mul(s, V(o.vect[1])))))),
            Imp(o.kind == PLANE, z3.And(*(pts(n.vect[0], V(o.vect[0])) + [n.vect[1].c[0] == s * o.vect[1].c[0]])))]


def trans_cst(c, n, o):
    t = V(c.translate)
    return [cst_shape(n, o), Imp(o.kind == FIXED, z3.And(*pts(n.vect[0], add(V(o.vect[0]), t)))),
            Imp(o.kind == LINE, z3.And(*(pts(n.vect[0], V(o.vect[0])) + pts(n.vect[1], add(V(o.vect[1]), t))))),
            Imp(o.kind == PLANE, z3.And(*(pts(n.vect[0], V(o.vect[0])) + [n.vect[1].c[0] == o.vect[1].c[0] + dot(V(o.vect[0]), t)])))]


def cst_pre(nm):
    return lambda c: is_list(c, getattr(c, nm).cst, c.old)


geo('plc_scale', 'link', ['link', 'alpha'], lambda c, v: mul(c.alpha, v), pre=cst_pre('link'), mod=lambda c: [cpred(c.link)],
    ens=lambda c: [('constraints are scaled', cst_mapped(c, c.new, CstN, scale_cst))], inv=cst_inv(scale_cst, 'link'))


def far(c):
    """the translation is not shorter than 1e-10"""
    t = V(c.translate)
    return sqrtf(dot(t, t)) >= z3.RealVal(str(Fraction(1e-10)))


def when(p, items):
    return [(l, Imp(p, f)) for l, f in items]


C('plc_translate', ['link', 'translate'], opts={'private': lambda c: [OwnV(c.translate.pv.o) == -1]}, requires=lambda c: wf_vt(c.link) + [c.link.G.null] + is_list(c, c.link.cst, c.old),
  modifies=lambda c: [RngF(c.link.cp, 0, c.link.nc, 'open'), all_inner(c.link), cpred(c.link)],
  ensures=lambda c: when(far(c), geo_ens('link', lambda c, v: add(v, V(c.translate)))(c) + [('constraints are moved', cst_mapped(c, c.new, CstN, trans_cst))]) +
  when(Not(far(c)), [('vertices stay', kept(c.link_, c.link, 0)), ('constraints stay', cst_kept(c, c.new, 0))]),
  inv=lambda Lp: map_inv('link', lambda c, v: add(v, V(c.translate)))(Lp) + cst_inv(trans_cst, 'link')(Lp))



NH = [z3.Real('nhat%d' % k) for k in range(3)]


def nhat_def(c):
    N = V(c.N)
    return [NH[k] == N[k] / sqrtf(dot(N, N)) for k in range(3)]


geo('plc_project', 'L', ['L', 'N'], opts={'private': lambda c: [OwnV(c.N.pv.o) == -1]}, f=lambda c, v: sub(v, mul(dot(v, NH), NH)), defs=nhat_def, pre=lambda c: [big(V(c.N))],
    inv=lambda Lp: [('direction %d' % q, z3.And(*[o.c[k] == NH[k] for k in range(3)])) for q, o in enumerate(Lp.objs) if o.ct.k == 'struct' and o.ct.key() == KEY[0]])


def sinz(c):
    return sqrtf(1 - c.axis.c[2] * c.axis.c[2])


def turned(c, v):
    """coordinates in the frame with third vector the axis"""
    x, y, z = v
    a, b, d = V(c.axis)
    s = 1 / sinz(c)
    return [-x * (b * s) + y * (a * s), -x * (a * d * s) - y * (b * d * s) + z * sinz(c), x * a + y * b + z * d]


def flipped(c, v):
    return [v[0], -v[1], -v[2]]


def both_inv(nm, fs):
    def g(Lp):
        out = []
        for q, f in enumerate(fs):
            out += [('%s (%d)' % (l, q), e) for l, e in map_inv(nm, f)(Lp)]
        return out
    return g


C('plc_random_rotate', ['link', 'axis'], opts={'private': lambda c: [OwnV(c.axis.pv.o) == -1]},
  requires=lambda c: wf_vt(c.link) + [dot(V(c.axis), V(c.axis)) == 1],
  modifies=lambda c: [RngF(c.link.cp, 0, c.link.nc, 'open'), all_inner(c.link)],
  ensures=lambda c: when(sinz(c) > c_vec.EPS, geo_ens('link', turned)(c)) +
  [(l + ' (down)', e) for l, e in when(z3.And(sinz(c) <= c_vec.EPS, c.axis.c[2] < 0), geo_ens('link', flipped)(c))] +
  when(z3.And(sinz(c) <= c_vec.EPS, c.axis.c[2] >= 0), [('vertices stay', kept(c.link_, c.link, 0))]),
  inv=both_inv('link', [turned, flipped]))


def lohi(c):
    return z3.If(c.vt0 < c.vt1, c.vt0, c.vt1), z3.If(c.vt0 < c.vt1, c.vt1, c.vt0)


def outside(M, L, c):
    """vertices outside the folded run stay"""
    i, j = z3.Ints('gi gj')
    lo, hi = lohi(c)
    e = pt(M, i, j)
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < L.nc, inner(L, i, j), Or(i != c.cp, j - 1 <= lo, j - 1 >= hi)), veq(e, pt(L, i, j))), patterns=[e.c[q] for q in range(3)])


def ends(c):
    return [V(pt(c.link, c.cp, c.vt0 + 1)), V(pt(c.link, c.cp, c.vt1 + 1))]


C('plc_pfm', ['link', 'cp', 'vt0', 'vt1', 'angle'],
  requires=lambda c: wf_vt(c.link) + [0 <= c.cp, c.cp < c.link.nc, -1 <= c.vt0, c.vt0 <= c.link.cp[c.cp].nv, -1 <= c.vt1, c.vt1 <= c.link.cp[c.cp].nv, big(sub(*ends(c))), big(sub(*ends(c)[::-1])), Or(*[Or(p - q > 16 * c_vec.EPS, q - p > 16 * c_vec.EPS) for p, q in zip(*ends(c))])],
  modifies=lambda c: [RngF(c.link.cp, 0, c.link.nc, 'open'), all_inner(c.link)],
  ensures=lambda c: [('the rest of the curve stays', outside(c.link_, c.link, c))] + geo_ens('link', lambda c, v: v)(c)[1:],
  inv=lambda Lp: [('outside', outside(Lp.c.arg('link', Lp.cur), Lp.c.link, Lp.c))])
