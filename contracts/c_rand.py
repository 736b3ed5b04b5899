"""Contracts: the Hopf map behind the random polygons (plcRandomPolygon.c), in exact real arithmetic."""
from common import *
from c_vec import V, dot, NONL
import z3
CONTRACTS = {}


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL)
    CONTRACTS[name] = Contract(name, args, **kw)


def quat(c):
    return [c.q0, c.q1, c.q2, c.q3]


def hopf_post(c):
    n = sum(q * q for q in quat(c))
    x, y, z = V(c.ret)
    re, im = 2 * (c.q0 * c.q2 + c.q1 * c.q3), 2 * (c.q1 * c.q2 - c.q0 * c.q3)   # twice the product of one complex number with the conjugate of the other

    def pm(u, v):
        return Or(u == v, u == -v)
    return [('length is the squared norm', x * x + y * y + z * z == n * n), ('first coordinate', pm(x, c.q0 * c.q0 + c.q1 * c.q1 - c.q2 * c.q2 - c.q3 * c.q3)),
            ('other coordinates', Or(z3.And(pm(y, im), pm(z, re)), z3.And(pm(y, re), pm(z, im)))), ('real arguments give a plane', Imp(z3.And(c.q1 == 0, c.q3 == 0), Or(y == 0, z == 0)))]


C('hopfImap', ['q0', 'q1', 'q2', 'q3'], ensures=hopf_post)
