"""Vector algebra (vector.c), in exact real arithmetic."""
from common import *
from fractions import Fraction
CONTRACTS = {}
EPS = z3.RealVal('1/4503599627370496')   # DBL_EPSILON
R = z3.RealVal


NONL = {'smt.arith.nl': False}     # products are left to the arithmetic back ends


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL, absmul=True)
    CONTRACTS[name] = Contract(name, args, **kw)


def V(x):
    return [x.c[k] for k in range(3)]


def add(a, b):
    return [p + q for p, q in zip(a, b)]


def sub(a, b):
    return [p - q for p, q in zip(a, b)]


def mul(s, a):
    return [s * p for p in a]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def eqv(a, b):
    return z3.And(*[p == q for p, q in zip(a, b)])


def isnorm(n, a):
    return z3.And(n >= 0, n * n == dot(a, a))


def ret(c):
    return V(c.ret)


def simple(name, args, f, **kw):
    C(name, args, ensures=lambda c: [('coordinate %d' % k, p == q) for k, (p, q) in enumerate(zip(ret(c), f(c)))], **kw)


simple('plc_vect_sum', ['A', 'B'], lambda c: add(V(c.A), V(c.B)))
simple('plc_vect_diff', ['A', 'B'], lambda c: sub(V(c.A), V(c.B)))
simple('plc_cross_prod', ['A', 'B'], lambda c: cross(V(c.A), V(c.B)))
simple('plc_scale_vect', ['s', 'A'], lambda c: mul(c.s, V(c.A)))
simple('plc_component_mult', ['A', 'B'], lambda c: [p * q for p, q in zip(V(c.A), V(c.B))])
simple('plc_vlincomb', ['a', 'A', 'b', 'B'], lambda c: add(mul(c.a, V(c.A)), mul(c.b, V(c.B))))
simple('plc_vmadd', ['A', 's', 'B'], lambda c: add(V(c.A), mul(c.s, V(c.B))))
simple('plc_vweighted', ['s', 'A', 'B'], lambda c: add(mul(1 - c.s, V(c.A)), mul(c.s, V(c.B))))
simple('plc_build_vect', ['x', 'y', 'z'], lambda c: [c.x, c.y, c.z])
C('plc_dot_prod', ['A', 'B'], ensures=lambda c: [('dot', c.ret == dot(V(c.A), V(c.B)))])
C('plc_norm', ['A'], ensures=lambda c: [('norm', isnorm(c.ret, V(c.A))), ('root', c.ret == sqrtf(dot(V(c.A), V(c.A))))])
C('plc_distance', ['A', 'B'], ensures=lambda c: [('distance', isnorm(c.ret, sub(V(c.A), V(c.B)))), ('root', (lambda d: c.ret == sqrtf(dot(d, d)))(sub(V(c.A), V(c.B))))])
C('plc_sq_dist', ['A', 'B'], ensures=lambda c: [('squared distance', (lambda d: c.ret == dot(d, d))(sub(V(c.A), V(c.B))))])
# equality up to rounding: a few ulps must be accepted, clearly different coordinates must not
C('plc_vecteq', ['A', 'B'],
  ensures=lambda c: [('equal vectors', Imp(eqv(V(c.A), V(c.B)), c.ret))] + [('different %d' % k, Imp(z3.Or(p - q > EPS * 16, q - p > EPS * 16), Not(c.ret))) for k, (p, q) in enumerate(zip(V(c.A), V(c.B)))])


atan2f = z3.Function('c_atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())


def sine(a, b):
    """the length of the cross product"""
    x = cross(a, b)
    return sqrtf(dot(x, x))


def ang(a, b):
    return atan2f(sine(a, b), dot(a, b))


def ang_ok(a, b):
    f = Fraction(1e-12)
    e = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    return Or(sine(a, b) > e, dot(a, b) > e, dot(a, b) < -e)


# the angle whose sine and cosine are proportional to the length of the cross product and to the scalar product
C('plc_angle', ['A', 'B', 'ok'], requires=lambda c: [c.ok.valid()], modifies=lambda c: [Ref(c.ok.elem(0))],
  ensures=lambda c: [('angle', c.ret == ang(V(c.A), V(c.B))), ('status', (c.ok_[0] != 0) == ang_ok(V(c.A), V(c.B)))])


def nzero(b):
    return z3.And(*[z3.Or(x > EPS, x < -EPS) for x in V(b)])


def okset(c, v):
    return Imp(c.ok.nonnull, (c.ok_[0] != 0) == v)


C('plc_component_div', ['A', 'B', 'ok'], requires=lambda c: [Or(c.ok.null, c.ok.valid())], modifies=lambda c: [Ref(c.ok.elem(0))],
  abort=lambda c: z3.And(c.ok.null, Not(nzero(c.B))),
  ensures=lambda c: [('status', okset(c, nzero(c.B)))] + [('quotient %d' % k, Imp(nzero(c.B), c.ret.c[k] * c.B.c[k] == c.A.c[k])) for k in range(3)])


def big(v):
    """the norm of v is at least DBL_EPSILON"""
    return dot(v, v) >= EPS * EPS


def unit_of(r, v):
    """r is the unit vector along v"""
    return z3.And(dot(r, r) == 1, dot(r, v) > 0, *[p == q for p, q in zip(cross(r, v), [0, 0, 0])])


def N(v):
    """the norm as the real square root"""
    return sqrtf(dot(V(v), V(v)))


C('plc_normalize_vect', ['V', 'ok'], requires=lambda c: [Or(c.ok.null, c.ok.valid())], modifies=lambda c: [Ref(c.ok.elem(0))],
  abort=lambda c: z3.And(c.ok.null, Not(big(V(c.V)))),
  ensures=lambda c: [('status', okset(c, big(V(c.V)))), ('unit', Imp(big(V(c.V)), dot(ret(c), ret(c)) == 1)), ('same direction', Imp(big(V(c.V)), dot(ret(c), V(c.V)) > 0))] +
  [('parallel %d' % k, Imp(big(V(c.V)), p == 0)) for k, p in enumerate(cross(ret(c), V(c.V)))] +
  [('scale', Imp(big(V(c.V)), z3.And(N(c.V) > 0, N(c.V) * N(c.V) == dot(V(c.V), V(c.V)))))] + [('coordinate %d' % k, Imp(big(V(c.V)), c.V.c[k] == N(c.V) * c.ret.c[k])) for k in range(3)] + [('quotient %d' % k, Imp(big(V(c.V)), c.ret.c[k] == c.V.c[k] / N(c.V))) for k in range(3)])


def trinormal(c):
    return cross(sub(V(c.B), V(c.A)), sub(V(c.C), V(c.A)))


C('plc_normal', ['A', 'B', 'C', 'ok'], requires=lambda c: [Or(c.ok.null, c.ok.valid())], modifies=lambda c: [Ref(c.ok.elem(0))],
  abort=lambda c: z3.And(c.ok.null, Not(big(trinormal(c)))),
  ensures=lambda c: [('status', okset(c, big(trinormal(c)))), ('unit', Imp(big(trinormal(c)), dot(ret(c), ret(c)) == 1)), ('oriented', Imp(big(trinormal(c)), dot(ret(c), trinormal(c)) > 0))] +
  [('parallel %d' % k, Imp(big(trinormal(c)), p == 0)) for k, p in enumerate(cross(ret(c), trinormal(c)))])


def flat(c, t='9/1000000000000000'):
    t = R(t)
    return z3.And(*[z3.And(x.c[2] <= t, x.c[2] >= -t) for x in (c.A, c.B, c.C)])


def area2(c):
    a, b, d = V(c.A), V(c.B), V(c.C)
    return (b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0])


def proper(c):
    t = R('1/100000000000000')
    return z3.And(flat(c), z3.Or(area2(c) >= t * (1 + R('1/1000')), area2(c) <= -t * (1 + R('1/1000'))))


def d2(c, p):
    return (c.ret.c[0] - p.c[0]) * (c.ret.c[0] - p.c[0]) + (c.ret.c[1] - p.c[1]) * (c.ret.c[1] - p.c[1])


C('plc_circumcenter', ['A', 'B', 'C', 'circumradius', 'ok'],
  requires=lambda c: [c.ok.valid(), Or(c.circumradius.null, c.circumradius.valid())], modifies=lambda c: [Ref(c.ok.elem(0)), Ref(c.circumradius.elem(0))],
  ensures=lambda c: [('proper triangles succeed', Imp(proper(c), c.ok_[0] != 0)), ('others are refused', Imp(z3.Or(Not(flat(c, '11/1000000000000000')), area2(c) == 0), c.ok_[0] == 0)),
                     ('equidistant AB', Imp(c.ok_[0] != 0, d2(c, c.A) == d2(c, c.B))), ('equidistant AC', Imp(c.ok_[0] != 0, d2(c, c.A) == d2(c, c.C))), ('in the plane', Imp(c.ok_[0] != 0, c.ret.c[2] == 0)),
                     ('radius', Imp(z3.And(c.ok_[0] != 0, c.circumradius.nonnull), z3.And(c.circumradius_[0] >= 0, c.circumradius_[0] * c.circumradius_[0] == d2(c, c.A))))])


def det(c):
    return dot(V(c.N1), cross(V(c.N2), V(c.N3)))


C('plc_3plane_intersection', ['N1', 'P1', 'N2', 'P2', 'N3', 'P3', 'ok'], requires=lambda c: [c.ok.valid()], modifies=lambda c: [Ref(c.ok.elem(0))],
  ensures=lambda c: [('on plane %d' % k, Imp(c.ok_[0] != 0, dot(sub(ret(c), V(p)), V(n)) == 0)) for k, (p, n) in enumerate(((c.P1, c.N1), (c.P2, c.N2), (c.P3, c.N3)))])
