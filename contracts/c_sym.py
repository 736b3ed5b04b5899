"""3x3 matrices (matrix.c), the matrices of symmetries and the measure of symmetry (symmetries.c), in exact real arithmetic."""
from common import *
from c_plc import *
from c_vec import V, sub, dot, NONL, N, big
import c_vec
from vc import sinf, cosf
CONTRACTS = {}
I, R = z3.IntSort(), z3.RealSort()
N3 = range(3)


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL)
    CONTRACTS[name] = Contract(name, args, **kw)


def M(p, i, j):
    return p[3 * i + j]                           # rows one after another


def mul(A, v):
    return [sum(M(A, i, j) * v[j] for j in N3) for i in N3]


def mat(p):
    return [p.valid(9)]


def newmat(c, f):
    return [('new storage', z3.And(c.ret.valid(9), c.ret.idx == 0, c.fresh_obj(c.ret)))] + [('entry %d%d' % (i, j), M(c.ret, i, j) == f(i, j)) for i in N3 for j in N3]


C('plc_matrix_vector_multiply', ['A', 'x'], requires=lambda c: mat(c.A),
  ensures=lambda c: [('row %d' % i, c.ret.c[i] == mul(c.A, V(c.x))[i]) for i in N3])
C('plc_matrix_matrix_multiply', ['A', 'B'], requires=lambda c: mat(c.A) + mat(c.B), allocs=True, opts={'fresh_ret': True},
  ensures=lambda c: newmat(c, lambda i, j: sum(M(c.A, i, k) * M(c.B, k, j) for k in N3)))
C('plc_matrix_copy', ['A'], requires=lambda c: mat(c.A), allocs=True, opts={'fresh_ret': True}, ensures=lambda c: newmat(c, lambda i, j: M(c.A, i, j)))
C('plc_build_matrix', ['row0', 'row1', 'row2'], allocs=True, opts={'fresh_ret': True},
  ensures=lambda c: newmat(c, lambda i, j: getattr(c, 'row%d' % i).c[j]))
C('plc_identity_matrix', ['A'], requires=lambda c: mat(c.A), modifies=lambda c: [Obj(c.A)],
  ensures=lambda c: [('entry %d%d' % (i, j), M(c.A_, i, j) == (1 if i == j else 0)) for i in N3 for j in N3])


def unit(c):
    return [c.axis.c[k] / N(c.axis) for k in N3]


def rot(c, i, j):
    u, ct, s = unit(c), cosf(c.theta), sinf(c.theta)
    r = u[i] * u[j] * (1 - ct) + (ct if i == j else 0)
    if i != j:
        k = 3 - i - j
        r = r + (u[k] * s if (j - i) % 3 == 2 else -(u[k] * s))     # the matrix of v -> u x v
    return r


C('plc_rotation_matrix', ['axis', 'theta', 'A'], opts={'absmul': True}, requires=lambda c: mat(c.A) + [big(V(c.axis))], modifies=lambda c: [Obj(c.A)],
  ensures=lambda c: [('entry %d%d' % (i, j), M(c.A_, i, j) == rot(c, i, j)) for i in N3 for j in N3])
C('plc_reflection_matrix', ['axis', 'A'], opts={'absmul': True}, requires=lambda c: mat(c.A) + [big(V(c.axis))], modifies=lambda c: [Obj(c.A)],
  ensures=lambda c: [('entry %d%d' % (i, j), M(c.A_, i, j) == (1 if i == j else 0) - 2 * (unit(c)[i] * unit(c)[j])) for i in N3 for j in N3])


# ---- how far a curve is from being symmetric
Err = z3.Function('SymErr', I, I, R)              # distance of the image of vertex j of component i from its target
from c_geo import pt
from c_meas import rt, vertex, lexlt


def sym_ok(L, A):
    i, j = z3.Ints('di dj')
    t = A.target[i][j]
    return [A.valid(), A.transform.valid(9), A.target.block(L.nc),
            FA(0, L.nc, lambda i: A.target[i].block(L.cp[i].nv), pats=[lambda i: A.target[i].obj, lambda i: L.cp[i].nv]),
            z3.ForAll([i, j], Imp(vertex(L, i, j), z3.And(0 <= t.cp, t.cp < L.nc, 0 <= t.vt, t.vt < L.cp[t.cp].nv)), patterns=[t.cp, t.vt])]


def err_def(c):
    i, j = z3.Ints('di dj')
    L, A = c.L, c.A
    t = A.target[i][j]
    a = mul(A.transform, V(pt(L, i, j + 1)))
    b = V(pt(L, t.cp, t.vt + 1))
    return [z3.ForAll([i, j], z3.And(Err(i, j) == rt(sub(a, b)), Err(i, j) == rt(sub(b, a)), Err(i, j) >= 0), patterns=[Err(i, j)])]


def covered(c, r, s):
    i, j = z3.Ints('pi pj')
    return z3.ForAll([i, j], Imp(z3.And(vertex(c.L, i, j), *([lexlt([i, j], s)] if s else [])), Err(i, j) <= r), patterns=[Err(i, j)])


def hit(c, r):
    i, j = z3.Ints('pi pj')
    return Or(r == 0, z3.Exists([i, j], z3.And(vertex(c.L, i, j), r == Err(i, j)), patterns=[Err(i, j)]))


def err_inv(L):
    out = []
    for k, r in L.reals:
        out += [('nonnegative %s' % k, r >= 0), ('attained %s' % k, hit(L.c, r))]
        for k1, x in L.allints:
            out.append(('covered %s %s' % (k, k1), covered(L.c, r, [x])))
            for k2, y in L.allints:
                if k1 != k2:
                    out += [('term %s %s' % (k1, k2), Err(x, y) >= 0), ('covered %s %s %s' % (k, k1, k2), covered(L.c, r, [x, y]))]
    return out


C('plc_symmetry_check', ['L', 'A'], opts={'absmul': True}, requires=lambda c: [Or(c.L.null, z3.And(*wf_vt(c.L))), Or(c.A.null, c.L.null, z3.And(*sym_ok(c.L, c.A)))], defs=err_def,
  ensures=lambda c: [('nothing to check', Imp(Or(c.L.null, c.A.null), c.ret == 0)), ('no vertex is further from its target', Imp(z3.And(c.L.nonnull, c.A.nonnull), covered(c, c.ret, None))),
                     ('attained', Imp(z3.And(c.L.nonnull, c.A.nonnull), z3.And(c.ret >= 0, hit(c, c.ret))))], inv=err_inv)


# ---- the same for a field of vectors, one per vertex
from c_plc import vsum, upto, vreq
import c_plc
CONTRACTS['plc_vertex_num'] = c_plc.CONTRACTS['plc_vertex_num']


def var_req(c):
    S = vsum(c)[0]
    i = z3.Int('mi')
    return vreq(c) + sym_ok(c.L, c.A) + [c.buffer.block(S(c.L.nc)), z3.ForAll([i], Imp(z3.And(0 <= i, i < c.L.nc), S(i) + c.L.cp[i].nv <= S(c.L.nc)), patterns=[S(i), c.L.cp[i].nv])]


def verr_def(c):
    i, j = z3.Ints('di dj')
    L, A, S = c.L, c.A, vsum(c)[0]
    t = A.target[i][j]
    a = mul(A.transform, V(c.buffer[S(i) + j]))
    b = V(c.buffer[S(t.cp) + t.vt])
    return vsum(c)[1] + [z3.ForAll([i, j], z3.And(Err(i, j) == rt(sub(a, b)), Err(i, j) == rt(sub(b, a)), Err(i, j) >= 0), patterns=[Err(i, j)])]


C('plc_symmetry_variation_check', ['L', 'buffer', 'A'], opts={'absmul': True}, requires=lambda c: [Or(c.L.null, c.A.null, z3.And(*var_req(c)))], defs=verr_def,
  ensures=lambda c: [('nothing to check', Imp(Or(c.L.null, c.A.null), c.ret == 0)), ('no entry is further from its target', Imp(z3.And(c.L.nonnull, c.A.nonnull), covered(c, c.ret, None))),
                     ('attained', Imp(z3.And(c.L.nonnull, c.A.nonnull), z3.And(c.ret >= 0, hit(c, c.ret))))], inv=err_inv)


# ---- storage and composition
from c_plc import wf_cp


def tparts(c, S, L, ctr, x):
    """the tables of components 0..x of symmetry S"""
    T = lambda q: S.target[q].obj
    i, k = z3.Ints('coi cok')
    return [('tables', FA(0, x, lambda i: z3.And(S.target[i].block(L.cp[i].nv), S.target[i].obj > c.old.ctr, S.target[i].obj <= ctr, S.target[i].obj > S.target.obj), pats=[lambda i: S.target[i].obj, lambda i: L.cp[i].nv])),
            ('separate tables', z3.ForAll([i, k], Imp(z3.And(0 <= i, i < k, k < x), T(i) < T(k)), patterns=[z3.MultiPattern(T(i), T(k))]))]


def newsym(c, S, L):
    return [('new storage', z3.And(S.block(1), c.fresh_obj(S), S.target.block(L.nc), c.fresh_obj(S.target), S.target.obj != S.obj)), ('of this curve', S.curve.obj == L.obj)] + tparts(c, S, L, c.new.ctr, L.nc)


def syms(L):
    return [o for o in L.objs if o.ct.k == 'struct' and o.ct.key() == 'plc_symmetry_type']


C('plc_symmetry_new', ['model'], requires=lambda c: wf_cp(c.model), allocs=True, opts={'fresh_ret': True, 'second': True},
  ensures=lambda c: newsym(c, c.ret, c.model) + [('no matrix yet', c.ret.transform.null)],
  inv=lambda L: [('%s %s' % (l, k), f) for k, x in L.ints for S in syms(L) for l, f in tparts(L.c, S, L.c.model, L.cur.ctr, x)])


def teq(a, b):
    return z3.And(a.cp == b.cp, a.vt == b.vt)


def images(S, L, f, cond=None):
    """the table of S at component i, vertex j holds f(i, j)"""
    i, j = z3.Ints('pi pj')
    e = S.target[i][j]
    return z3.ForAll([i, j], Imp(z3.And(vertex(L, i, j), *([cond(i, j)] if cond else [])), teq(e, f(i, j))), patterns=[e.cp, e.vt])


def img_inv(f, own):
    def g(L):
        out = []
        K = own(L.c)
        for S in syms(L):
            out += [('%s' % l, q) for l, q in newsym_at(L.c, S, K, L.cur)]
            for k1, x in L.allints:
                out.append(('images %s' % k1, images(S, K, lambda i, j: f(L.c, i, j), lambda i, j: i < x)))
                for k2, y in L.allints:
                    if k1 != k2:
                        out.append(('images %s %s' % (k1, k2), images(S, K, lambda i, j: f(L.c, i, j), lambda i, j: Or(i < x, z3.And(i == x, j < y)))))
        return out
    return g


def newsym_at(c, S, L, mem):
    return [('new storage', z3.And(S.block(1), S.obj > c.old.ctr, S.target.block(L.nc), S.target.obj > c.old.ctr, S.target.obj != S.obj)), ('of this curve', S.curve.obj == L.obj)] + tparts(c, S, L, mem.ctr, L.nc)


def two(c, i, j):
    t = c.A.target[i][j]
    return c.B.target[t.cp][t.vt]


C('plc_compose_symmetries', ['A', 'B'], allocs=True, opts={'fresh_ret': True, 'second': True, 'absmul': True},
  requires=lambda c: wf_cp(c.A.curve) + sym_ok(c.A.curve, c.A) + sym_ok(c.A.curve, c.B),
  ensures=lambda c: newsym(c, c.ret, c.A.curve) + [('first then second', images(c.ret, c.A.curve, lambda i, j: two(c, i, j)))] +
  [('matrix', z3.And(c.ret.transform.valid(9), c.fresh_obj(c.ret.transform)))] + [('entry %d%d' % (i, j), M(c.ret.transform, i, j) == sum(M(c.B.transform, i, k) * M(c.A.transform, k, j) for k in N3)) for i in N3 for j in N3],
  inv=img_inv(two, lambda c: c.A.curve))
C('plc_symmetry_copy', ['A'], allocs=True, opts={'fresh_ret': True, 'second': True},
  requires=lambda c: wf_cp(c.A.curve) + sym_ok(c.A.curve, c.A),
  ensures=lambda c: newsym(c, c.ret, c.A.curve) + [('same images', images(c.ret, c.A.curve, lambda i, j: c.A.target[i][j]))] +
  [('matrix', z3.And(c.ret.transform.valid(9), c.fresh_obj(c.ret.transform)))] + [('entry %d%d' % (i, j), M(c.ret.transform, i, j) == M(c.A.transform, i, j)) for i in N3 for j in N3],
  inv=img_inv(lambda c, i, j: c.A.target[i][j], lambda c: c.A.curve))
