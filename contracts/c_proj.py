"""Contracts: on which side of a projected segment a point lies (plcTopology.c), in exact real arithmetic."""
from common import *
from c_vec import V, sub, cross, NONL
import z3
CONTRACTS = {}


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL)
    CONTRACTS[name] = Contract(name, args, **kw)


def side_post(c):
    area = cross(sub(V(c.A[1]), V(c.A[0])), sub(V(c.B), V(c.A[0])))[2]
    tol = z3.RealVal('1/1000000')
    return [('the side', z3.And(-1 <= c.ret, c.ret <= 1)), ('left', Imp(area > tol, c.ret == 1)), ('right', Imp(area < -tol, c.ret == -1)),
            ('never the wrong side', z3.And(Imp(c.ret == 1, area > 0), Imp(c.ret == -1, area < 0))), ('on the line', Imp(area == 0, c.ret == 0))]


C('segment_side', ['A', 'B'], internal=True, requires=lambda c: [c.A.block(2)], ensures=side_post)

# ------------------------------------------------------------------ the list of crossings
FIELDS = ['lower_cmp', 'upper_cmp', 'lower_s', 'upper_s', 'sign']


def same(x, y):
    return z3.And([getattr(x, f) == getattr(y, f) for f in FIELDS])


def kept(a, b, n):
    return FA(0, n, lambda j: same(b.buf[j], a.buf[j]), pats=[lambda j, f=f: getattr(b.buf[j], f) for f in FIELDS])


def wf(x):
    return [x.valid(), x.idx == 0, 0 <= x.used, x.used <= x.size, x.size >= 1, x.buf.block(x.size), x.buf.obj > 900, x.buf.obj != x.obj]


C('crossing_container_new', ['size'], internal=True, allocs=True, requires=lambda c: [c.size >= 1, c.size < 2**24], opts={'fresh_ret': True},
  ensures=lambda c: (lambda r: [('empty', z3.And(r.valid(), r.idx == 0, c.fresh_obj(r), r.used == 0)), ('room', z3.And(r.buf.block(r.size), c.fresh_obj(r.buf), r.buf.obj != r.obj, r.size >= 1))])(c.ret))
C('crossing_container_add', ['c', 'cross'], internal=True, allocs=True, opts={'private': lambda c: [c.c.buf.obj != c.cross.pv.o]}, requires=lambda c: wf(c.c) + [c.c.size < 2**24],
  modifies=lambda c: [Obj(c.c), Obj(c.c.buf)], frees=lambda c: [('may', lambda o: o == c.c.buf.obj)],
  ensures=lambda c: (lambda a, b: [('one more', b.used == a.used + 1), ('the crossing is last', same(b.buf[a.used], c.cross)), ('the others stay', kept(a, b, a.used)),
                                   ('room', z3.And(b.valid(), b.used <= b.size, b.buf.block(b.size))), ('the buffer in use is not released', Not(c.new.freed(b.buf.obj)))])(c.c, c.c_))


def ref(c, n):
    return typed(c, n, 'crossing_reference')


C('crossing_reference_compare', ['A', 'B'], internal=True, argtypes=['void *', 'void *'], requires=lambda c: [ref(c, 'A').valid(), ref(c, 'B').valid()],
  ensures=lambda c: [('order', Imp(ref(c, 'A').s != ref(c, 'B').s, z3.And((c.ret < 0) == (ref(c, 'A').s < ref(c, 'B').s), (c.ret > 0) == (ref(c, 'A').s > ref(c, 'B').s))))])


def cr(c, n):
    return typed(c, n, 'crossing')


def first(x):
    """where the crossing comes first: component and parameter (of the upper strand if both are on one component)"""
    lo = x.lower_cmp < x.upper_cmp
    return z3.If(lo, x.lower_cmp, x.upper_cmp), z3.If(lo, x.lower_s, x.upper_s)


def cr_pre(c):
    out = []
    for n in 'AB':
        x = cr(c, n)
        out += [x.valid(), x.lower_cmp >= 0, x.upper_cmp >= 0, x.lower_s > 0, x.upper_s > 0]
    return out


def cr_post(c):
    (ka, sa), (kb, sb) = first(cr(c, 'A')), first(cr(c, 'B'))
    lt, gt = Or(ka < kb, z3.And(ka == kb, sa < sb)), Or(ka > kb, z3.And(ka == kb, sa > sb))
    return [('earlier first', Imp(lt, c.ret < 0)), ('later last', Imp(gt, c.ret > 0))]


C('crossing_compare', ['A', 'B'], internal=True, argtypes=['void *', 'void *'], requires=cr_pre, ensures=cr_post)


def sd(c, n):
    return typed(c, n, 'crossing_strand_t')


def sd_post(c):
    a, b = sd(c, 'A'), sd(c, 'B')
    tol = z3.RealVal('1/1000000')
    return [('another component', Imp(a.cmp != b.cmp, Or((c.ret < 0) == (a.cmp < b.cmp), (c.ret < 0) == (a.cmp > b.cmp)))), ('another component is not equal', Imp(a.cmp != b.cmp, c.ret != 0)),
            ('earlier first', Imp(z3.And(a.cmp == b.cmp, a.s < b.s - tol), c.ret < 0)), ('later last', Imp(z3.And(a.cmp == b.cmp, a.s > b.s + tol), c.ret > 0)),
            ('the same place', Imp(z3.And(a.cmp == b.cmp, a.s == b.s), c.ret == 0))]


C('crossing_strand_cmp', ['A', 'B'], internal=True, argtypes=['void *', 'void *'], requires=lambda c: [sd(c, 'A').valid(), sd(c, 'B').valid(), sd(c, 'A').cmp < 2**30, sd(c, 'B').cmp < 2**30], ensures=sd_post)


def cf_req(c):
    p = c.c.elem(0).value()
    return [c.c.valid(), Or(p.null, z3.And(p.valid(), p.idx == 0, p.obj > 900, p.obj != c.c.obj, Or(p.buf.null, z3.And(p.buf.valid(), p.buf.idx == 0, p.buf.obj > 900, p.buf.obj != p.obj, p.buf.obj != c.c.obj))))]


C('crossing_container_free', ['c'], internal=True, requires=cf_req, modifies=lambda c: [Obj(c.c), Obj(c.c.elem(0).value())],
  frees=lambda c: [lambda o: z3.And(c.c.elem(0).value().nonnull, Or(o == c.c.elem(0).value().obj, z3.And(c.c.elem(0).value().buf.nonnull, o == c.c.elem(0).value().buf.obj)))],
  ensures=lambda c: [('pointer cleared', c.arg('c', c.new).elem(0).value().null)])
