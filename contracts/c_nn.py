"""Nearest point of a list (nearest_neighbor.c), in exact real arithmetic."""
from common import *
from c_plc import *
import c_plc
from c_vec import V, sub, dot, NONL
CONTRACTS = {}
I, R = z3.IntSort(), z3.RealSort()
Sq = z3.Function('SqDist', I, R)                  # squared distance of the query from entry j
MAXD = z3.RealVal(2) ** 1000


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL, absmul=True)
    CONTRACTS[name] = Contract(name, args, **kw)


def sq_def(q, b):
    j = z3.Int('dj')
    x, y = V(q), V(b[j])
    return [z3.ForAll([j], z3.And(Sq(j) == dot(sub(x, y), sub(x, y)), Sq(j) == dot(sub(y, x), sub(y, x)), Sq(j) >= 0), patterns=[Sq(j)])]


def le(lo, hi, r):
    j = z3.Int('pj')
    return z3.ForAll([j], Imp(z3.And(lo <= j, j < hi), r <= Sq(j)), patterns=[Sq(j)])


def ge(n, r):
    j = z3.Int('pj')
    return z3.ForAll([j], Imp(z3.And(0 <= j, j < n), Sq(j) < r), patterns=[Sq(j)])


C('exhaustive_nearest_neighbor', ['query', 'n', 'buffer', 'stride'],
  requires=lambda c: [c.n >= 1, c.n < 2**24, c.stride == 1, c.buffer.block(c.n), ge(c.n, MAXD)], defs=lambda c: sq_def(c.query, c.buffer),
  ensures=lambda c: [('an entry', z3.And(0 <= c.ret, c.ret < c.n)), ('none is nearer', le(0, c.n, Sq(c.ret)))],
  inv=lambda L: [('term %s' % k, Sq(x) >= 0) for k, x in L.ints] +
  [('seen %s %s' % (k, k1), le(0, x, r)) for k, r in L.reals for k1, x in L.ints] +
  [('best %s %s' % (k, k1), Or(z3.And(x == 0, r >= MAXD), r == Sq(x))) for k, r in L.reals for k1, x in L.ints] +
  [('in range %s' % k, z3.And(0 <= x, x < L.c.n)) for k, x in L.ints] + [('nonneg %s' % k, 0 <= x) for k, x in L.ints] +
  [('started %s %s' % (k, k1), Or(x == 0, r == Sq(y))) for k, r in L.reals for k1, x in L.ints for k2, y in L.ints])
