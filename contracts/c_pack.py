"""Packed form of diagrams (pd_pack.c)."""
from common import *
CONTRACTS = {}


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


IB = z3.Function('indexbits', I, I)          # number of bits for an edge index
P2 = z3.Function('two_to_the', I, I)
Q = z3.Function('shifted', I, I, I)          # i / 2^k
BIG = 1 << 24


def ib_facts(n):
    return z3.And(IB(n) >= 1, IB(n) <= 31, P2(IB(n)) >= 2 * n, P2(IB(n)) < 4 * n)


def p2_ax():
    k = z3.Int('k')
    return [P2(0) == 1, z3.ForAll([k], Imp(k >= 0, z3.And(P2(k + 1) == 2 * P2(k), P2(k) >= 1)), patterns=[P2(k + 1)]), P2(31) == 1 << 31,
            z3.ForAll([k], Imp(z3.And(k >= 0, k <= 31), z3.And(P2(k) >= 1, P2(k) <= 1 << 31)), patterns=[P2(k)])]


def q_ax():
    i, k = z3.Ints('i k')
    return [z3.ForAll([i], Q(i, 0) == i, patterns=[Q(i, 0)]), z3.ForAll([i, k], Imp(z3.And(k >= 0, i >= 0), z3.And(Q(i, k + 1) == Q(i, k) / 2, Q(i, k + 1) >= 0, Q(i, k) >= 0)), patterns=[Q(i, k + 1)])]


C('pd_indexbits', ['n'], assumed=True, requires=lambda c: [c.n >= 1, c.n < BIG], defs=lambda c: p2_ax(), ensures=lambda c: [('bits', z3.And(c.ret == IB(c.n), ib_facts(c.n)))])
C('pd_packbits', ['n', 'crtype'], requires=lambda c: [c.n >= 1, c.n < BIG, c.crtype >= 0, c.crtype <= 1], defs=lambda c: p2_ax(),
  ensures=lambda c: [('length', c.ret == c.n * (4 + 4 * IB(c.n) + ite(c.crtype == 0, 1, 0)))])
C('pd_idx_bitencode', ['i', 'n'], allocs=True, defs=lambda c: q_ax() + p2_ax(), requires=lambda c: [c.n >= 1, c.n < BIG, c.i < 2 * c.n],
  ensures=lambda c: [('room', z3.And(c.ret.block(IB(c.n)), c.fresh_obj(c.ret))), ('binary digits', FA(0, IB(c.n), lambda k: c.ret[k] == Q(c.i, k) % 2, pats=[lambda k: c.ret[k]]))], opts={'fresh_ret': True},
  inv=lambda L: [('quotient %s %s' % (a, b), y == Q(L.c.i, x)) for a, x in L.ints for b, y in L.ints if a != b] +
                [('digits %s' % a, FA(0, x, lambda k: o[k] == Q(L.c.i, k) % 2, pats=[lambda k: o[k]])) for a, x in L.ints for o in L.objs if o.ct.k == 'int'])
I0 = z3.Int('encoded')


def dec_pre(c):
    n = c.n
    return [n >= 1, n < BIG, c.bitcode.valid(IB(n)), I0 >= 0, I0 < 2 * n, FA(0, IB(n), lambda k: c.bitcode[k] == Q(I0, k) % 2, pats=[lambda k: c.bitcode[k]]),
            ib_facts(n)]


C('pd_idx_bitdecode', ['bitcode', 'n'], defs=lambda c: q_ax() + p2_ax(), requires=dec_pre, ensures=lambda c: [('the index', c.ret == I0)],
  inv=lambda L: [('value %s %s' % (a, b), z3.And(x >= 0, x <= IB(L.c.n), y + Q(I0, x) * P2(x) == I0)) for a, x in L.ints for b, y in L.ints if a != b] +
                [('place %s %s' % (a, b), y == P2(x)) for a, x in L.ints for b, y in L.ints if a != b])

# ------------------------------------------------------------------ bit strings


def bit0(c):
    j = z3.Int('j')
    return [z3.ForAll([j], Imp(j >= 0, Not(bitf(zi(0), j))), patterns=[bitf(zi(0), j)])]


def nwords(n):
    return (n + 31) / 32


def bits_of(w, b, hi, n):
    """bit j of the words is b[j], for j < hi; and 0 beyond"""
    return FA(0, hi, lambda j: bitf(w[j / 32], j % 32) == z3.And(j < n, b[j] == 1))


def words_of(w, b, lo, hi, n):
    i, j = z3.Ints('wi wj')
    t = bitf(w[i], j)
    return z3.ForAll([i, j], Imp(z3.And(lo <= i, i < hi, 0 <= j, j < 32), t == z3.And(32 * i + j < n, b[32 * i + j] == 1)), patterns=[t])


def part_of(w, b, i, ofs, n):
    j = z3.Int('wj')
    t = bitf(w[i], j)
    return z3.ForAll([j], Imp(z3.And(0 <= j, j < 32), t == z3.And(j < ofs, 32 * i + j < n, b[32 * i + j] == 1)), patterns=[t])


def pk_inv(L):
    c = L.c
    b, n = c.intform, c.nints
    out = [('len', L.c.arg('packints', L.cur)[0] == nwords(n))]
    ints = [('%s' % a, x) for a, x in L.ints]
    allv = ints + [('o%s' % a, x) for a, x in L.outer]
    for w in [o for o in L.objs if o.ct.k == 'int']:
        for a, x in allv:
            out += [('words %s' % a, words_of(w, b, 0, x, n)), ('zero words %s' % a, FA(x, nwords(n), lambda q: w[q] == 0, pats=[lambda q: w[q]])), ('zero words+ %s' % a, FA(x + 1, nwords(n), lambda q: w[q] == 0, pats=[lambda q: w[q]]))]
            for a2, y in ints:
                if a2 != a:
                    out += [('part %s %s' % (a, a2), part_of(w, b, x, y, n))]
    return out + places(L, n)


def places(L, n):
    out = []
    ints = [('%s' % a, x) for a, x in L.ints]
    allv = ints + [('o%s' % a, x) for a, x in L.outer]
    for a, x in ints:
        out += [('b %s' % a, x <= n), ('bs %s' % a, x < n), ('o %s' % a, x <= 32)]
    for a, x in allv:
        for a2, y in ints:
            if a2 != a:
                out += [('at %s %s' % (a, a2), y == 32 * x)]
                for a3, z in ints:
                    if a3 not in (a, a2):
                        out += [('at %s %s %s' % (a, a2, a3), y == 32 * x + z)]
    return out


C('pd_packbitstring', ['intform', 'nints', 'packints'], allocs=True, defs=bit0, opts={'fresh_ret': True, 'bits': True},
  requires=lambda c: [c.nints >= 1, c.nints < (1 << 30), c.intform.valid(c.nints), c.packints.valid(), c.packints.obj != c.intform.obj, FA(0, c.nints, lambda k: z3.And(c.intform[k] >= 0, c.intform[k] <= 1), pats=[lambda k: c.intform[k]])],
  modifies=lambda c: [Ref(c.packints.elem(0))],
  ensures=lambda c: [('length', c.packints_[0] == nwords(c.nints)), ('room', z3.And(c.ret.block(nwords(c.nints)), c.fresh_obj(c.ret))), ('every bit', words_of(c.ret, c.intform, 0, nwords(c.nints), c.nints))],
  inv=pk_inv)


def upto(u, w, hi):
    return FA(0, hi, lambda j: u[j] == z3.If(bitf(w[j / 32], j % 32), zi(1), zi(0)), pats=[lambda j: u[j]])


def upk_inv(L):
    c = L.c
    w, n = c.bitform, c.nbits
    out = []
    for u in [o for o in L.objs if o.ct.k == 'int']:
        for a, x in L.ints:
            out += [('done %s' % a, upto(u, w, x))]
    return out + places(L, n)


C('pd_unpackbitstring', ['bitform', 'nbits'], allocs=True, opts={'fresh_ret': True, 'bits': True},
  requires=lambda c: [c.nbits >= 1, c.nbits < (1 << 30), c.bitform.valid(nwords(c.nbits))],
  ensures=lambda c: [('room', z3.And(c.ret.block(c.nbits), c.fresh_obj(c.ret))), ('every bit', upto(c.ret, c.bitform, c.nbits))],
  inv=upk_inv)
