"""Shared specification vocabulary for pd-codes."""
import z3
from vc import *
POS, NEG, UNSET = 1, 0, 2
M32 = 1 << 32


def Or(*a):
    return z3.Or(*a) if len(a) != 1 else a[0]


def Imp(a, b):
    return z3.Implies(a, b)


Not = z3.Not


def isor(x):
    return z3.Or(x == POS, x == NEG)


def ite(c, a, b):
    return z3.If(c, zi(a) if isinstance(a, int) else a, zi(b) if isinstance(b, int) else b)


def pick4(cr, j):
    """cr.edge[j] for a symbolic j in 0..3 without an array term (case split)"""
    j = zi(j)
    n = num(j)
    if n is not None:
        return cr.edge[n]
    return z3.If(j == 0, cr.edge[0], z3.If(j == 1, cr.edge[1], z3.If(j == 2, cr.edge[2], cr.edge[3])))


def typed(c, nm, tname, mem=None):
    """view an untyped (void*) argument as a pointer to tname"""
    p = c.arg(nm, mem)
    T = c.eng.types.named(tname)
    return PtrView(p.mem, PV(p.pv.o, p.pv.i, T), T)


def wf_cross(pd):
    return [pd.valid(), pd.cross.block(pd.ncross)]


def wf_edge(pd):
    return [pd.valid(), pd.edge.block(pd.nedges)]


def wf_comp(pd):
    return [pd.valid(), pd.comp.block(pd.ncomps),
            FA(0, pd.ncomps, lambda i: pd.comp[i].edge.block(pd.comp[i].nedges))]


def wf_face(pd):
    return [pd.valid(), pd.face.block(pd.nfaces),
            FA(0, pd.nfaces, lambda i: z3.And(pd.face[i].edge.block(pd.face[i].nedges), pd.face[i].orient.block(pd.face[i].nedges)))]


def out_ok(p):
    """optional out-parameter"""
    return Or(p.null, p.valid())


def apart(*ps):
    """distinct objects (only meaningful for pointers of the same element type)"""
    out = []
    for k in range(len(ps)):
        for m in range(k):
            out.append(Or(ps[k].null, ps[m].null, ps[k].obj != ps[m].obj))
    return out


def ghost_sum(c, name, term, n=0):
    """S(k) = sum of term(0..k-1); returns (S, definitional axioms).  Fuel encoding: S unfolds once to S'."""
    S = z3.Function(name, z3.IntSort(), z3.IntSort())
    S1 = z3.Function(name + "'", z3.IntSort(), z3.IntSort())
    k = z3.Int('gk')
    return S, [z3.ForAll([k], z3.And(S(k) == z3.If(k <= 0, zi(0), S1(k - 1) + term(k - 1)), S(k) == S1(k)), patterns=[S(k)])]
