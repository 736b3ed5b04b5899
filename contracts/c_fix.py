"""Enforcing and checking constraints (plCurve.c), in exact real arithmetic."""
from common import *
from c_plc import *
from c_cst import node, is_list, at, cst_cursor, Cell, Pos, CstN, is_cst
from c_geo import pt, inner, all_inner, hid, FIXED, LINE, PLANE
from c_vec import V, add, sub, mul, dot, NONL, EPS
CONTRACTS = {}


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL, absmul=True)
    CONTRACTS[name] = Contract(name, args, **kw)


RS = z3.RealSort()
LineP = [z3.Function('LinePoint%d' % k, *([RS] * 10)) for k in range(3)]      # closest point of a line, of a plane
PlaneP = [z3.Function('PlanePoint%d' % k, *([RS] * 8)) for k in range(3)]


def on_line(x, a, b):
    return [f(*(x + a + b)) for f in LineP]


def on_plane(x, a, d):
    return [f(*(x + a + [d])) for f in PlaneP]


def line_def(c):
    x, a, b = V(c.point), V(c.tangent), V(c.point_on_line)
    r = add(mul(dot(a, sub(x, b)) / dot(a, a), a), b)
    return [f == g for f, g in zip(on_line(x, a, b), r)]


def plane_def(c):
    x, a = V(c.point), V(c.normal)
    r = sub(x, mul((dot(a, x) - c.d) / dot(a, a), a))
    return [f == g for f, g in zip(on_plane(x, a, c.d), r)]


def vec_is(v, f):
    return [('coordinate %d' % k, v.c[k] == f[k]) for k in range(3)]


C('Closest_line_point', defs=line_def, args=['point', 'tangent', 'point_on_line'], internal=True, requires=lambda c: [dot(V(c.tangent), V(c.tangent)) > EPS],
  ensures=lambda c: vec_is(c.ret, on_line(V(c.point), V(c.tangent), V(c.point_on_line))))
C('Closest_plane_point', defs=plane_def, args=['point', 'normal', 'd'], internal=True, opts={'nomerge': True}, requires=lambda c: [dot(V(c.normal), V(c.normal)) > EPS],
  ensures=lambda c: vec_is(c.ret, on_plane(V(c.point), V(c.normal), c.d)))

Cov = z3.Function('Covers', z3.IntSort(), z3.IntSort(), z3.IntSort())     # list position of the constraint on a vertex, or -1


def nd(c, k, mem=None):
    return node(c, Cell(k), mem or c.old)


def cst_wf(c):
    """legal constraints, at most one on a vertex"""
    L = c.L
    k, i, j = z3.Ints('ck ci cj')
    n = nd(c, k)
    vs = z3.And(n.cmp >= 0, n.cmp < L.nc, n.vert >= 0, n.num_verts >= 1, n.vert + n.num_verts <= L.cp[n.cmp].nv, Or(n.kind == FIXED, n.kind == LINE, n.kind == PLANE), Imp(n.kind == FIXED, n.num_verts == 1),
                Imp(n.kind != FIXED, dot(V(n.vect[0]), V(n.vect[0])) > EPS))
    m = nd(c, Cov(i, j))
    return [z3.ForAll([k], Imp(z3.And(0 <= k, k < CstN), vs), patterns=[Cell(k)]),
            z3.ForAll([k, j], Imp(z3.And(0 <= k, k < CstN, n.vert <= j, j < n.vert + n.num_verts), Cov(n.cmp, j) == k), patterns=[z3.MultiPattern(Cell(k), Cov(n.cmp, j))]),
            z3.ForAll([i, j], z3.And(Cov(i, j) >= -1, Cov(i, j) < CstN, Imp(Cov(i, j) >= 0, z3.And(Cell(Cov(i, j)) > 900, m.cmp == i, m.vert <= j, j < m.vert + m.num_verts))), patterns=[Cov(i, j)])]


def target(n, x):
    a, b = V(n.vect[0]), V(n.vect[1])
    return [z3.If(n.kind == FIXED, p, z3.If(n.kind == LINE, q, r)) for p, q, r in zip(a, on_line(x, a, b), on_plane(x, a, n.vect[1].c[0]))]


def put(c, M, done):
    """vertices for which done(position, vertex) holds are at the closest allowed point, the others have not moved"""
    i, j = z3.Ints('gi gj')
    L = c.L
    e, o = pt(M, i, j), V(pt(L, i, j))
    k = Cov(i, j - 1)
    t = target(nd(c, k), o)
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < L.nc, inner(L, i, j)), z3.And(*[e.c[q] == z3.If(z3.And(k >= 0, done(k, j - 1)), t[q], o[q]) for q in range(3)])), patterns=[e.c[q] for q in range(3)])


def cursors(L):
    return cst_cursor(L) + [('o%s' % k, p) for k, p in L.optrs if is_cst(p)]


def fix_inv(L):
    M = L.c.arg('L', L.cur)
    out = []
    for k, p in cursors(L):
        P, f = at(p)
        out += [('cursor %s' % k, f), ('put %s' % k, put(L.c, M, lambda q, v: q < P)), ('put next %s' % k, put(L.c, M, lambda q, v: q <= P))]
        for k2, x in L.ints:
            out += [('part %s %s' % (k, k2), put(L.c, M, lambda q, v: Or(q < P, z3.And(q == P, v < x)))), ('in range %s %s' % (k, k2), Imp(p.nonnull, z3.And(x >= nd(L.c, P).vert, x <= nd(L.c, P).vert + nd(L.c, P).num_verts))),
                    ('here %s %s' % (k, k2), Imp(z3.And(p.nonnull, x < nd(L.c, P).vert + nd(L.c, P).num_verts), Cov(nd(L.c, P).cmp, x) == P))]
    return out


C('plc_fix_cst', ['L'], requires=lambda c: wf_vt(c.L) + is_list(c, c.L.cst, c.old) + cst_wf(c),
  modifies=lambda c: [RngF(c.L.cp, 0, c.L.nc, 'open'), all_inner(c.L)],
  ensures=lambda c: [('vertices at their closest allowed points', put(c, c.L_, lambda q, v: z3.BoolVal(True))),
                     ('hidden vertices', FA(0, c.L.nc, lambda i: hid(c.L_, c.L, i), pats=[lambda i: c.L.cp[i].vt.obj, lambda i: c.L.cp[i].nv, lambda i: c.L_.cp[i].open]))],
  inv=fix_inv)


def err(c, i, j, mem=None):
    x = V(pt(c.L, i, j + 1))
    t = target(nd(c, Cov(i, j)), x)
    d = sub(x, t)
    return dot(d, d)


Err = z3.Function('CstErr', z3.IntSort(), z3.IntSort(), z3.RealSort())


def err_def(c):
    i, j = z3.Ints('di dj')
    x = V(pt(c.L, i, j + 1))
    n = nd(c, Cov(i, j))
    a, b = V(n.vect[0]), V(n.vect[1])
    sq = lambda d: dot(d, d)
    cases = [z3.And(Err(i, j) == sq(sub(x, t)), Err(i, j) == sq(sub(t, x))) for t in (a, on_line(x, a, b), on_plane(x, a, n.vect[1].c[0]))]
    return [z3.ForAll([i, j], z3.And(Imp(n.kind == FIXED, cases[0]), Imp(n.kind == LINE, cases[1]), Imp(n.kind == PLANE, cases[2]), Err(i, j) >= 0), patterns=[Err(i, j)])]


def below(c, r, done):
    i, j = z3.Ints('gi gj')
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < c.L.nc, 0 <= j, j < c.L.cp[i].nv, Cov(i, j) >= 0, done(Cov(i, j), j)), Err(i, j) <= r), patterns=[Err(i, j), Cov(i, j)])


def reached(c, r):
    i, j = z3.Ints('gi gj')
    return Or(r == 0, z3.Exists([i, j], z3.And(0 <= i, i < c.L.nc, 0 <= j, j < c.L.cp[i].nv, Cov(i, j) >= 0, Err(i, j) == r), patterns=[Err(i, j)]))


def chk_inv(L):
    out = []
    for k, p in cursors(L):
        P, f = at(p)
        n = nd(L.c, P)
        out += [('cursor %s' % k, f), ('here0 %s' % k, Imp(p.nonnull, z3.And(Cov(n.cmp, n.vert) == P, Err(n.cmp, n.vert) >= 0)))]
        for k2, x in L.ints:
            out += [('in range %s %s' % (k, k2), Imp(p.nonnull, z3.And(x >= n.vert, x <= n.vert + n.num_verts))),
                    ('here %s %s' % (k, k2), Imp(z3.And(p.nonnull, x < n.vert + n.num_verts), z3.And(Cov(n.cmp, x) == P, Err(n.cmp, x) >= 0)))]
        for kr, r in L.reals:
            out += [('below %s %s' % (k, kr), below(L.c, r, lambda q, v: q < P)), ('reached %s' % kr, reached(L.c, r)), ('nonnegative %s' % kr, r >= 0)]
            for k2, x in L.ints:
                out += [('part %s %s %s' % (k, k2, kr), below(L.c, r, lambda q, v: Or(q < P, z3.And(q == P, v < x))))]
    return out


MaxErr = z3.Real('MaxErr')
C('plc_check_cst', ['L'], requires=lambda c: wf_vt(c.L) + is_list(c, c.L.cst, c.old) + cst_wf(c) + [MaxErr >= 0, below(c, MaxErr, lambda q, v: z3.BoolVal(True)), reached(c, MaxErr)], defs=err_def,
  ensures=lambda c: [('the largest distance', c.ret == sqrtf(MaxErr))],
  inv=chk_inv)
