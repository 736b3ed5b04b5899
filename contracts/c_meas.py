"""Measurements of curves (plCurve.c), in exact real arithmetic.  Lengths are running sums of edge lengths."""
from common import *
from c_plc import *
from c_geo import pt, inner, kept
import c_plc
from c_vec import V, add, sub, mul, dot, NONL, ang, ang_ok
CONTRACTS = {}
I, R = z3.IntSort(), z3.RealSort()
Edge = z3.Function('EdgeLen', I, I, R)            # length of edge j of component i (vertex j to vertex j+1)
Run = z3.Function('RunLen', I, I, R)              # length of the first j edges of component i
Run1 = z3.Function("RunLen'", I, I, R)
Tot = z3.Function('TotLen', I, R)                 # length of the first i components
Tot1 = z3.Function("TotLen'", I, R)


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL, absmul=True)
    CONTRACTS[name] = Contract(name, args, **kw)


def rt(v):
    return sqrtf(dot(v, v))


def edges_def(c):
    L = c.L
    i, j = z3.Ints('di dj')
    a, b = V(pt(L, i, j + 1)), V(pt(L, i, j + 2))
    # the square root of the sum of squares of the coordinate differences, whichever end is subtracted
    return [z3.ForAll([i, j], z3.And(Edge(i, j) == rt(sub(b, a)), Edge(i, j) == rt(sub(a, b)), Edge(i, j) >= 0), patterns=[Edge(i, j)])]


def run_def(c):
    i, j = z3.Ints('di dj')
    return [z3.ForAll([i, j], z3.And(Run(i, j) == z3.If(j <= 0, z3.RealVal(0), Run1(i, j - 1) + Edge(i, j - 1)), Run(i, j) == Run1(i, j)), patterns=[Run(i, j)])]


def tot_def(c):
    i = z3.Int('di')
    return [z3.ForAll([i], z3.And(Tot(i) == z3.If(i <= 0, z3.RealVal(0), Tot1(i - 1) + Run(i - 1, strand_edges(c.L, i - 1))), Tot(i) == Tot1(i)), patterns=[Tot(i)])]


def len_defs(c):
    return edges_def(c) + run_def(c) + tot_def(c)


def len_inv(L):
    out = []
    for k, r in L.reals:
        for k1, x in L.allints:
            out.append(('total %s %s' % (k, k1), r == Tot(x)))
            for k2, y in L.allints:
                if k1 != k2:
                    out.append(('run %s %s %s' % (k, k1, k2), r == Run(x, y)))
                    out.append(('both %s %s %s' % (k, k1, k2), r == Tot(x) + Run(x, y)))
                    out.append(('both- %s %s %s' % (k, k1, k2), r == Tot(x) + Run(x, y - 1)))
        for a in ["cmp"]:
            if a in L.eng.con.args:
                for k2, y in L.allints:
                    out.append(('arg run %s %s' % (k, k2), r == Run(L.c.cmp, y)))
                    out.append(('arg both %s %s' % (k, k2), r == Tot(L.c.cmp) + Run(L.c.cmp, y - 1)))
                    out.append(('arg both0 %s %s' % (k, k2), r == Tot(L.c.cmp) + Run(L.c.cmp, y)))
    return out


C('plc_arclength', ['L', 'component_lengths'],
  requires=lambda c: wf_vt(c.L) + [Or(c.component_lengths.null, c.component_lengths.block(c.L.nc))], defs=len_defs,
  modifies=lambda c: [Obj(c.component_lengths)],
  ensures=lambda c: [('total', c.ret == Tot(c.L.nc)), ('per component', Imp(c.component_lengths.nonnull, FA(0, c.L.nc, lambda i: c.component_lengths_[i] == Run(i, strand_edges(c.L, i)), pats=[lambda i: c.component_lengths_[i]])))],
  inv=lambda L: len_inv(L) + [('stored %s' % k, Imp(L.c.component_lengths.nonnull, FA(0, x, lambda i: L.c.arg('component_lengths', L.cur)[i] == Run(i, strand_edges(L.c.L, i)), pats=[lambda i: L.c.arg('component_lengths', L.cur)[i]]))) for k, x in L.allints])

C('plc_s', ['L', 'cmp', 'vert'],
  requires=lambda c: wf_vt(c.L) + [0 <= c.cmp, c.cmp < c.L.nc, 0 <= c.vert, c.vert < c.L.cp[c.cmp].nv], defs=len_defs,
  ensures=lambda c: [('position along the curve', c.ret == Tot(c.cmp) + Run(c.cmp, c.vert))],
  inv=len_inv)


# ---- part of a component
def sub_ok(c):
    nv = c.L.cp[c.cmp].nv
    return wf_vt(c.L) + [0 <= c.cmp, c.cmp < c.L.nc, 0 <= c.vert1, c.vert1 < nv, 0 <= c.vert2, c.vert2 < nv]


def imin(a, b):
    return z3.If(a <= b, a, b)


def imax(a, b):
    return z3.If(a >= b, a, b)


def sub_inv(L):
    c = L.c
    lo, hi = imin(c.vert1, c.vert2), imax(c.vert1, c.vert2)
    out = []
    for k, r in L.reals:
        for k1, x in L.ints:
            m = imin(imax(x, lo), hi)
            out.append(('between %s %s' % (k, k1), r == Run(c.cmp, m) - Run(c.cmp, lo)))
            out.append(('outside %s %s' % (k, k1), Imp(c.L.cp[c.cmp].open == 0, r == Run(c.cmp, x) - (Run(c.cmp, m) - Run(c.cmp, lo)))))
            out.append(('from the start %s' % k1, Imp(c.L.cp[c.cmp].open != 0, x >= lo)))
    return out


def arc(c):
    lo, hi = imin(c.vert1, c.vert2), imax(c.vert1, c.vert2)
    return Run(c.cmp, hi) - Run(c.cmp, lo)


C('plc_subarc_length', ['L', 'cmp', 'vert1', 'vert2'], requires=sub_ok, defs=lambda c: edges_def(c) + run_def(c),
  ensures=lambda c: [('open', Imp(c.L.cp[c.cmp].open != 0, c.ret == arc(c))),
                     ('closed', Imp(c.L.cp[c.cmp].open == 0, (lambda a, b: c.ret == z3.If(a <= b, a, b))(arc(c), Run(c.cmp, c.L.cp[c.cmp].nv) - arc(c))))],
  inv=sub_inv)

# ---- diameter
Dist = z3.Function('PtDist', I, I, I, I, R)


def dist_def(c):
    i, j, k, l = z3.Ints('di dj dk dl')
    a, b = V(pt(c.L, i, j + 1)), V(pt(c.L, k, l + 1))
    return [z3.ForAll([i, j, k, l], z3.And(Dist(i, j, k, l) == rt(sub(a, b)), Dist(i, j, k, l) == rt(sub(b, a)), Dist(i, j, k, l) == Dist(k, l, i, j), Dist(i, j, k, l) >= 0), patterns=[Dist(i, j, k, l)])]


def lexlt(t, s):
    """t before s in lexicographic order, s may be shorter"""
    out = z3.BoolVal(False)
    for q in reversed(range(len(s))):
        out = Or(t[q] < s[q], z3.And(t[q] == s[q], out))
    return out


def vertex(L, i, j):
    return z3.And(0 <= i, i < L.nc, 0 <= j, j < L.cp[i].nv)


def pairs(c, r, s, order=True):
    i, j, k, l = z3.Ints('pi pj pk pl')
    cond = [vertex(c.L, i, j), vertex(c.L, k, l)]
    if order:
        cond += [Or(i < k, z3.And(i == k, j <= l))]
    if s:
        cond += [lexlt([i, j, k, l], s)]
    return z3.ForAll([i, j, k, l], Imp(z3.And(*cond), Dist(i, j, k, l) <= r), patterns=[Dist(i, j, k, l)])


def attained(c, r):
    i, j, k, l = z3.Ints('pi pj pk pl')
    return Or(r == 0, z3.Exists([i, j, k, l], z3.And(vertex(c.L, i, j), vertex(c.L, k, l), r == Dist(i, j, k, l)), patterns=[Dist(i, j, k, l)]))


def dia_inv(L):
    import itertools
    out = []
    for k, r in L.reals:
        out += [('nonnegative %s' % k, r >= 0), ('attained %s' % k, attained(L.c, r))]
        n = len(L.outer) + len(L.ints)
        for p in itertools.permutations(L.allints, min(n, 4)):
            if len(p) == 4:
                out.append(('term %s' % ' '.join(str(a) for a, b in p), Dist(*[b for a, b in p]) >= 0))
            out.append(('covered %s %s' % (k, ' '.join(str(a) for a, b in p)), pairs(L.c, r, [b for a, b in p])))
    return out


C('plc_pointset_diameter', ['L'], requires=lambda c: wf_vt(c.L), defs=dist_def,
  ensures=lambda c: [('no distance is larger', pairs(c, c.ret, None, False)), ('attained', z3.And(c.ret >= 0, attained(c, c.ret)))],
  inv=dia_inv)


# ---- tangent
def tangent(c):
    L = c.L
    nv = L.cp[c.cmp].nv
    P = lambda d: V(pt(L, c.cmp, c.vert + 1 + d))
    op = L.cp[c.cmp].open != 0
    first, last = z3.And(op, c.vert == 0), z3.And(op, c.vert == nv - 1)
    return [z3.If(first, x, z3.If(last, y, z)) for x, y, z in zip(sub(P(1), P(0)), sub(P(0), P(-1)), sub(P(1), P(-1)))]


def longv(v):
    e = z3.RealVal('1/4503599627370496')
    return dot(v, v) >= e * e


C('plc_mean_tangent', ['L', 'cmp', 'vert', 'ok'],
  requires=lambda c: wf_vt(c.L) + [0 <= c.cmp, c.cmp < c.L.nc, 0 <= c.vert, c.vert < c.L.cp[c.cmp].nv, c.L.cp[c.cmp].nv >= 2, Or(c.ok.null, c.ok.valid())],
  modifies=lambda c: [Ref(c.ok.elem(0))], abort=lambda c: z3.And(c.ok.null, Not(longv(tangent(c)))),
  ensures=lambda c: [('status', Imp(c.ok.nonnull, (c.ok_[0] != 0) == longv(tangent(c)))), ('unit', Imp(longv(tangent(c)), dot(V(c.ret), V(c.ret)) == 1))] +
  [('along the chord %d' % k, Imp(longv(tangent(c)), c.ret.c[k] == tangent(c)[k] / rt(tangent(c)))) for k in range(3)])

# ---- averages over the vertices
WS = [z3.Function('MassRun%d' % q, I, I, R) for q in range(3)]      # weighted sum over the first j vertices of component i
WS1 = [z3.Function("MassRun%d'" % q, I, I, R) for q in range(3)]
WT = [z3.Function('MassTot%d' % q, I, R) for q in range(3)]
WT1 = [z3.Function("MassTot%d'" % q, I, R) for q in range(3)]


def running(S, S1, T, T1, term, L):
    i, j = z3.Ints('di dj')
    return [z3.ForAll([i, j], z3.And(S(i, j) == z3.If(j <= 0, z3.RealVal(0), S1(i, j - 1) + term(i, j - 1)), S(i, j) == S1(i, j)), patterns=[S(i, j)]),
            z3.ForAll([i], z3.And(T(i) == z3.If(i <= 0, z3.RealVal(0), T1(i - 1) + S(i - 1, L.cp[i - 1].nv)), T(i) == T1(i)), patterns=[T(i)])]


def nverts(c):
    return z3.ToReal(vsum(c)[0](c.L.nc))


def mass_defs(c):
    out = vsum(c)[1]
    for q in range(3):
        out += running(WS[q], WS1[q], WT[q], WT1[q], lambda i, j: (1 / nverts(c)) * V(pt(c.L, i, j + 1))[q], c.L)
    return out


def tri(L):
    """views of local vectors"""
    return [p for p in L.objs if p.ct.k == 'struct' and p.ct.key() == 'plc_vector_type']


def mass_inv(L):
    out = [('vertices kept', kept(L.c.arg('L', L.cur), L.c.L, 0))]
    regs = [('r%s' % k, r) for k, r in L.reals]
    for k1, x in L.allints:
        for q in range(3):
            out += [('mass total %s %s %d' % (k, k1, q), r == WT[q](x)) for k, r in regs]
            out += [('mass total v%d %s %d' % (n, k1, q), v.elem(0).c[q] == WT[q](x)) for n, v in enumerate(tri(L))]
            for k2, y in L.allints:
                if k1 != k2:
                    out += [('mass %s %s %s %d' % (k, k1, k2, q), r == WT[q](x) + WS[q](x, y)) for k, r in regs]
                    out += [('mass v%d %s %s %d' % (n, k1, k2, q), v.elem(0).c[q] == WT[q](x) + WS[q](x, y)) for n, v in enumerate(tri(L))]
    return out


CONTRACTS['plc_num_verts'] = c_plc.CONTRACTS['plc_num_verts']
CONTRACTS['plc_edges'] = c_plc.CONTRACTS['plc_edges']
C('plc_center_of_mass', ['L'], requires=lambda c: wf_vt(c.L) + [upto(vsum(c)[0], c.L.nc), vsum(c)[0](c.L.nc) >= 1], defs=mass_defs,
  ensures=lambda c: [('mean of the vertices %d' % q, c.ret.c[q] == WT[q](c.L.nc)) for q in range(3)], inv=mass_inv)

GS, GS1 = z3.Function('GyrRun', I, I, R), z3.Function("GyrRun'", I, I, R)
GT, GT1 = z3.Function('GyrTot', I, R), z3.Function("GyrTot'", I, R)
Off = z3.Function('FromCentre', I, I, R)


def gyr_defs(c):
    i, j = z3.Ints('di dj')
    com = [WT[q](c.L.nc) for q in range(3)]
    a = V(pt(c.L, i, j + 1))
    sq = lambda d: dot(d, d)
    return mass_defs(c) + running(GS, GS1, GT, GT1, lambda i, j: Off(i, j), c.L) + [z3.ForAll([i, j], z3.And(Off(i, j) == sq(sub(com, a)), Off(i, j) == sq(sub(a, com))), patterns=[Off(i, j)])]


def gyr_inv(L):
    out = []
    for k1, x in L.allints:
        out += [('gyr total %s %s' % (k, k1), r == GT(x)) for k, r in L.reals]
        for k2, y in L.allints:
            if k1 != k2:
                out += [('gyr %s %s %s' % (k, k1, k2), r == GT(x) + GS(x, y)) for k, r in L.reals]
                out += [('counted %s %s' % (k1, k2), x == vsum(L.c)[0](y)), ('counted+ %s %s' % (k1, k2), x == vsum(L.c)[0](y + 1))]
    return out


C('plc_gyradius', ['L'], requires=lambda c: wf_vt(c.L) + [upto(vsum(c)[0], c.L.nc), vsum(c)[0](c.L.nc) >= 1], defs=gyr_defs,
  ensures=lambda c: [('mean squared distance from the centre', c.ret == GT(c.L.nc) / nverts(c))], inv=gyr_inv)

# ---- edge lengths
ES, ES1 = z3.Function('SqRun', I, I, R), z3.Function("SqRun'", I, I, R)
ET, ET1 = z3.Function('SqTot', I, R), z3.Function("SqTot'", I, R)


def stat_defs(c):
    i, j = z3.Ints('di dj')
    return len_defs(c) + esum(c)[1] + [
        z3.ForAll([i, j], z3.And(ES(i, j) == z3.If(j <= 0, z3.RealVal(0), ES1(i, j - 1) + Edge(i, j - 1) * Edge(i, j - 1)), ES(i, j) == ES1(i, j)), patterns=[ES(i, j)]),
        z3.ForAll([i], z3.And(ET(i) == z3.If(i <= 0, z3.RealVal(0), ET1(i - 1) + ES(i - 1, strand_edges(c.L, i - 1))), ET(i) == ET1(i)), patterns=[ET(i)])]


def isedge(L, i, j):
    return z3.And(0 <= i, i < L.nc, 0 <= j, j < strand_edges(L, i))


def bound(c, r, s, up):
    i, j = z3.Ints('pi pj')
    return z3.ForAll([i, j], Imp(z3.And(isedge(c.L, i, j), *([lexlt([i, j], s)] if s else [])), (Edge(i, j) <= r) if up else (Edge(i, j) >= r)), patterns=[Edge(i, j)])


def hit(c, r):
    i, j = z3.Ints('pi pj')
    return z3.Exists([i, j], z3.And(isedge(c.L, i, j), r == Edge(i, j)), patterns=[Edge(i, j)])


BIG = z3.RealVal('100000000000000000000')


def stat_inv(L):
    out = len_inv(L)
    for k, r in L.reals:
        out += [('edge or start %s' % k, Or(r == 0, hit(L.c, r))), ('edge or huge %s' % k, Or(r == BIG, hit(L.c, r)))]
        for k1, x in L.allints:
            out += [('sq total %s %s' % (k, k1), r == ET(x))] + [('%s %s %s' % (n, k, k1), bound(L.c, r, [x], u)) for n, u in (('upper', True), ('lower', False))]
            for k2, y in L.allints:
                if k1 != k2:
                    out += [('term %s %s %d' % (k1, k2, d), Edge(x, y - d) >= 0) for d in (0, 1)]
                    out += [('sq %s %s %s' % (k, k1, k2), r == ET(x) + ES(x, y)), ('sq- %s %s %s' % (k, k1, k2), r == ET(x) + ES(x, y - 1))]
                    out += [('%s %s %s %s %d' % (n, k, k1, k2, d), bound(L.c, r, [x, y - d], u)) for n, u in (('upper', True), ('lower', False)) for d in (0, 1)]
    return out


def outp(c, nm, f):
    p, q = getattr(c, nm), getattr(c, nm + '_')
    return Imp(p.nonnull, f(q[0]))


OUTS = ['longestP', 'shortestP', 'meanP', 'moment2P']
C('plc_edgelength_stats', ['L'] + OUTS,
  requires=lambda c: wf_vt(c.L) + [upto(esum(c)[0], c.L.nc), esum(c)[0](c.L.nc) >= 1] + [Or(getattr(c, n).null, getattr(c, n).valid()) for n in OUTS] + apart(*[getattr(c, n) for n in OUTS]) +
  [bound(c, BIG, None, True)], defs=stat_defs,
  modifies=lambda c: [Ref(getattr(c, n).elem(0)) for n in OUTS],
  ensures=lambda c: [('longest', outp(c, 'longestP', lambda r: z3.And(bound(c, r, None, True), Or(r == 0, hit(c, r))))),
                     ('shortest', outp(c, 'shortestP', lambda r: z3.And(bound(c, r, None, False), Or(r == BIG, hit(c, r))))),
                     ('mean', outp(c, 'meanP', lambda r: r == Tot(c.L.nc) / z3.ToReal(esum(c)[0](c.L.nc)))),
                     ('second moment', outp(c, 'moment2P', lambda r: r == ET(c.L.nc) / z3.ToReal(esum(c)[0](c.L.nc))))],
  inv=stat_inv)


# ---- turning
Turn = z3.Function('Turn', I, I, R)               # turning angle at vertex j of component i, 0 where it is not defined
TurnOk = z3.Function('TurnOk', I, I, z3.BoolSort())
TS, TS1 = z3.Function('TurnRun', I, I, R), z3.Function("TurnRun'", I, I, R)
TT, TT1 = z3.Function('TurnTot', I, R), z3.Function("TurnTot'", I, R)


def inout(L, i, j):
    a, b, d = V(pt(L, i, j)), V(pt(L, i, j + 1)), V(pt(L, i, j + 2))
    return sub(b, a), sub(d, b)


def turn_def(c):
    i, j = z3.Ints('di dj')
    x, y = inout(c.L, i, j)
    t = Turn(i, j)
    return [z3.ForAll([i, j], z3.And(t == z3.If(TurnOk(i, j), ang(x, y), z3.RealVal(0)), t == z3.If(TurnOk(i, j), ang(y, x), z3.RealVal(0)), TurnOk(i, j) == ang_ok(x, y), TurnOk(i, j) == ang_ok(y, x)), patterns=[t])]


def turns(L, i):
    """the vertices of component i that have a turning angle: [lo, hi)"""
    op = L.cp[i].open != 0
    return z3.If(op, zi(1), zi(0)), z3.If(op, L.cp[i].nv - 1, L.cp[i].nv)


def turntot_def(c):
    i, j = z3.Ints('di dj')
    lo = lambda i: turns(c.L, i)[0]
    return turn_def(c) + [z3.ForAll([i, j], z3.And(TS(i, j) == z3.If(j <= lo(i), z3.RealVal(0), TS1(i, j - 1) + Turn(i, j - 1)), TS(i, j) == TS1(i, j)), patterns=[TS(i, j)]),
                          z3.ForAll([i], z3.And(TT(i) == z3.If(i <= 0, z3.RealVal(0), TT1(i - 1) + TS(i - 1, turns(c.L, i - 1)[1])), TT(i) == TT1(i)), patterns=[TT(i)])]


def tc_inv(L):
    out = []
    a = L.c.arg('component_tc', L.cur)
    nn = L.c.component_tc.nonnull
    for k1, x in L.allints:
        out += [('turn total %s %s' % (k, k1), r == TT(x)) for k, r in L.reals]
        out += [('stored %s' % k1, Imp(nn, FA(0, x, lambda i: a[i] == TS(i, turns(L.c.L, i)[1]), pats=[lambda i: a[i]])))]
        for k2, y in L.allints:
            if k1 != k2:
                out += [('turn %s %s %s' % (k, k1, k2), r == TT(x) + TS(x, y)) for k, r in L.reals]
                out += [('running %s %s' % (k1, k2), Imp(nn, a[x] == TS(x, y)))]
    return out


C('plc_totalcurvature', ['L', 'component_tc'],
  requires=lambda c: wf_vt(c.L) + [Or(c.component_tc.null, c.component_tc.block(c.L.nc))], defs=turntot_def,
  modifies=lambda c: [Obj(c.component_tc)],
  ensures=lambda c: [('total', c.ret == TT(c.L.nc)), ('per component', Imp(c.component_tc.nonnull, FA(0, c.L.nc, lambda i: c.component_tc_[i] == TS(i, turns(c.L, i)[1]), pats=[lambda i: c.component_tc_[i]])))],
  inv=tc_inv)


def turn_at(c):
    nv = c.L.cp[c.cp].nv
    return z3.If(c.L.cp[c.cp].open != 0, c.invt, c.invt % nv)


def turn_end(c):
    return z3.And(c.L.cp[c.cp].open != 0, Or(c.invt <= 0, c.invt >= c.L.cp[c.cp].nv - 1))


C('plc_turning_angle', ['L', 'cp', 'invt', 'ok'], opts={'mod': True},
  requires=lambda c: wf_vt(c.L) + [0 <= c.cp, c.cp < c.L.nc, c.invt > -(1 << 30), c.invt < (1 << 30), Or(c.ok.null, c.ok.valid())], defs=turn_def,
  modifies=lambda c: [Ref(c.ok.elem(0))],
  ensures=lambda c: [('angle', c.ret == z3.If(turn_end(c), z3.RealVal(0), Turn(c.cp, turn_at(c)))),
                     ('status', Imp(c.ok.nonnull, (c.ok_[0] != 0) == Or(turn_end(c), TurnOk(c.cp, turn_at(c)))))],
  inv=lambda L: [('same vertex %s' % k, z3.And(x % L.c.L.cp[L.c.cp].nv == L.c.invt % L.c.L.cp[L.c.cp].nv, x < L.c.L.cp[L.c.cp].nv + z3.If(L.c.invt > 0, L.c.invt, zi(0)))) for k, x in L.ints])
