"""The group-valued iterators (pd_cyclic.c, pd_dihedral.c, pd_orientation.c, pd_perm.c)."""
from common import *
CONTRACTS = {}
HALF = 1 << 31
TABLE = 6       # permutations of up to this many elements are tabulated (decided by complete enumeration, n_grp.c)


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def cast(c, p, tname):
    T = c.eng.types.named(tname)
    return PtrView(p.mem, PV(p.pv.o, p.pv.i, T), T)


def G(c, nm, tname, mem=None):
    return cast(c, c.arg(nm, mem), tname)


def PP(c, nm, tname, mem=None):
    """void* that points to a pointer to tname"""
    p = c.arg(nm, mem)
    T = c.eng.cparse(tname + ' *')
    return PtrView(p.mem, PV(p.pv.o, p.pv.i, T), T).elem(0).value()


def PPref(c, nm, tname, mem=None):
    p = c.arg(nm, mem)
    T = c.eng.cparse(tname + ' *')
    return PtrView(p.mem, PV(p.pv.o, p.pv.i, T), T)


def wf(x):
    return [x.valid(), x.n < HALF, x.map.block(x.n)]


def inrange(x, lo=1):
    return [x.n >= lo, FA(0, x.n, lambda i: x.map[i] < x.n)]


def rot(x, r=None, n=None):
    """x.map is the rotation by its first value"""
    n = x.n if n is None else n
    r = x.map[0] if r is None else r
    return FA(0, n, lambda i: x.map[i] == ite(r + i < n, r + i, r + i - n), pats=[lambda i: x.map[i]])


def refl(x, r=None, n=None):
    n = x.n if n is None else n
    r = x.map[0] if r is None else r
    return FA(0, n, lambda i: x.map[i] == ite(i <= r, r - i, r - i + n), pats=[lambda i: x.map[i]])


def ident(x, hi=None):
    return FA(0, x.n if hi is None else hi, lambda i: x.map[i] == i, pats=[lambda i: x.map[i]])


def cells(L, ty=None):
    """integer buffers allocated so far, also through a new permutation"""
    out = [o for o in L.objs if o.ct.k == 'int']
    return out + [o.map for o in L.objs if o.ct.k == 'struct' and any(m[0] == 'map' for m in o.ct.members)]


# ------------------------------------------------------------------ new / copy / free
def new_inv(src):
    def inv(L):
        out = []
        for ko, o in enumerate(cells(L)):
            for k, x in L.ints:
                out += [('identity %s %s' % (k, ko), FA(0, x, lambda i: o[i] == i, pats=[lambda i: o[i]]))]
        return out
    return inv


def npar(c, nm='np'):
    p = c.arg(nm)
    T = c.eng.types.named('pd_idx_t')
    if p.pv.T is not None and p.pv.T.k == 'struct':     # the address of a member
        return PtrView(p.mem, p.pv, T)
    return PtrView(p.mem, PV(p.pv.o, p.pv.i, T), T)


def fresh2(c, r):
    return [('new storage', z3.And(r.valid(), r.idx == 0, c.fresh_obj(r), r.map.block(r.n), c.fresh_obj(r.map), r.map.obj != r.obj, Not(r.freed)))]


for nm, extra in (('cyclic', None), ('dihedral', lambda r: [('positive', r.orient == POS)]), ('perm', lambda r: [('index', r.pc_idx == 0)])):
    T = 'pd_%s_t' % nm

    def mk_new(T=T, extra=extra):
        def post(c):
            r = cast(c, c.ret, T)
            return fresh2(c, r) + [('size', r.n == npar(c)[0]), ('identity', ident(r))] + (extra(r) if extra else [])
        return post

    C('pd_new_' + nm, ['np'], allocs=True, requires=lambda c: [npar(c).valid(), npar(c)[0] < HALF], ensures=mk_new(), inv=new_inv(None), opts={'fresh_ret': True})

    def mk_copy(T=T, nm=nm):
        def post(c):
            a, r = G(c, 'x', T), cast(c, c.ret, T)
            out = fresh2(c, r) + [('size', r.n == a.n), ('values', FA(0, a.n, lambda i: r.map[i] == a.map[i], pats=[lambda i: r.map[i]]))]
            if nm == 'dihedral':
                out += [('orientation', r.orient == a.orient)]
            if nm == 'perm':
                out += [('index', r.pc_idx == a.pc_idx)]
            return out
        return post

    C('pd_copy_' + nm, ['x'], allocs=True, requires=lambda c, T=T: wf(G(c, 'x', T)), ensures=mk_copy(), opts={'fresh_ret': True})

    C('pd_free_' + nm, ['p'],
      requires=lambda c, T=T: [c.p.valid(), Or(PP(c, 'p', T).null, (lambda x: z3.And(x.valid(), x.idx == 0, x.obj > 900, Not(x.freed), x.obj != c.p.obj, Or(x.map.null, z3.And(x.map.idx == 0, x.map.obj > 900, Not(x.map.freed), x.map.obj != x.obj, x.map.obj != c.p.obj))))(PP(c, 'p', T)))],
      modifies=lambda c, T=T: [Ref(PPref(c, 'p', T).elem(0)), Obj(PP(c, 'p', T))],
      frees=lambda c, T=T: [lambda o: z3.And(PP(c, 'p', T).nonnull, Or(o == PP(c, 'p', T).obj, z3.And(PP(c, 'p', T).map.nonnull, o == PP(c, 'p', T).map.obj)))],
      ensures=lambda c, T=T: [('pointer cleared', PP(c, 'p', T, c.new).null)])

# ------------------------------------------------------------------ cyclic
CY = 'pd_cyclic_t'


def cyc_inc_post(c):
    a, b = G(c, 'x', CY), G(c, 'x', CY, c.new)
    n = a.n
    return [('size kept', b.n == n),
            ('next rotation', Imp(rot(a), z3.And(rot(b), b.map[0] == ite(a.map[0] + 1 < n, a.map[0] + 1, 0))))]


def shift_inv(T):
    def inv(L):
        a, b = G(L.c, 'x', T), G(L.c, 'x', T, L.cur)
        out = []
        for k, x in L.ints:
            out += [('shifted %s' % k, FA(0, x, lambda i: b.map[i] == a.map[i + 1], pats=[lambda i: b.map[i]])),
                    ('rest %s' % k, FA(x, a.n, lambda i: b.map[i] == a.map[i], pats=[lambda i: b.map[i]])),
                    ('identity %s' % k, FA(0, x, lambda i: b.map[i] == i, pats=[lambda i: b.map[i]])),
                    ('reflection %s' % k, FA(0, x, lambda i: b.map[i] == ite(i == 0, 0, a.n - i), pats=[lambda i: b.map[i]]))]
        return out
    return inv


C('pd_increment_cyclic', ['x'], requires=lambda c: wf(G(c, 'x', CY)) + inrange(G(c, 'x', CY)) + [G(c, 'x', CY).map.obj != G(c, 'x', CY).obj],
  modifies=lambda c: [Rng(G(c, 'x', CY).map, 0, G(c, 'x', CY).n)], ensures=cyc_inc_post, inv=shift_inv(CY))
C('pd_ncyclics', ['x'], requires=lambda c: [G(c, 'x', CY).valid()], ensures=lambda c: [('one per rotation', c.ret == G(c, 'x', CY).n)])


def bad_repeat(L, T, k, x):
    a = G(L.c, 'x', T)
    return []


def distinct_upto(a, x):
    return FA(0, x, lambda i: FA(i + 1, a.n, lambda j: a.map[i] != a.map[j], pats=[lambda j: a.map[j]]), pats=[lambda i: a.map[i]])


def ok_inv(T):
    def inv(L):
        a = G(L.c, 'x', T)
        out = []
        succ = lambda i: a.map[i + 1] == ite(a.map[i] + 1 == a.n, 0, a.map[i] + 1)
        pred = lambda i: a.map[i] == ite(a.map[i + 1] + 1 == a.n, 0, a.map[i + 1] + 1)
        for k, x in L.ints:
            out += [('in range %s' % k, FA(0, x, lambda i: a.map[i] < a.n, pats=[lambda i: a.map[i]])),
                    ('rotation so far %s' % k, Imp(a.n > 0, FA(0, x + 1, lambda i: a.map[i] == ite(a.map[0] + i < a.n, a.map[0] + i, a.map[0] + i - a.n), pats=[lambda i: a.map[i]]))),
                    ('reflection so far %s' % k, Imp(a.n > 0, FA(0, x + 1, lambda i: a.map[i] == ite(i <= a.map[0], a.map[0] - i, a.map[0] - i + a.n), pats=[lambda i: a.map[i]]))),
                    ]
        return out
    return inv


C('pd_cyclic_ok', ['x'], requires=lambda c: wf(G(c, 'x', CY)),
  ensures=lambda c: [('accepts exactly the rotations', c.ret == z3.And(FA(0, G(c, 'x', CY).n, lambda i: G(c, 'x', CY).map[i] < G(c, 'x', CY).n, pats=[lambda i: G(c, 'x', CY).map[i]]), rot(G(c, 'x', CY))))],
  inv=ok_inv(CY))

# ------------------------------------------------------------------ dihedral
DI = 'pd_dihedral_t'


def elt(x):
    """a group element: determined by the orientation and the first value"""
    return z3.And(x.map[0] < x.n, z3.If(x.orient == POS, rot(x), refl(x)))


def rank(x):
    return z3.If(x.orient == POS, x.map[0], x.n + z3.If(x.map[0] == 0, zi(0), x.n - x.map[0]))


def dih_inc_post(c):
    a, b = G(c, 'x', DI), G(c, 'x', DI, c.new)
    good = z3.And(z3.If(a.orient == POS, rot(a), refl(a)))
    return [('size kept', b.n == a.n), ('orientation legal', isor(b.orient)),
            ('next element', Imp(good, z3.And(b.map[0] < a.n, rank(b) == ite(rank(a) + 1 == 2 * a.n, 0, rank(a) + 1)))),
            ('rotation', Imp(z3.And(good, b.orient == POS), rot(b))), ('reflection', Imp(z3.And(good, b.orient == NEG), refl(b)))]


C('pd_increment_dihedral', ['x'], requires=lambda c: wf(G(c, 'x', DI)) + inrange(G(c, 'x', DI)) + [isor(G(c, 'x', DI).orient)],
  modifies=lambda c: [Rng(G(c, 'x', DI).map, 0, G(c, 'x', DI).n), Ref(G(c, 'x', DI).elem(0).ref('orient'))], ensures=dih_inc_post, inv=shift_inv(DI))
C('pd_ndihedrals', ['x'], requires=lambda c: [G(c, 'x', DI).valid(), G(c, 'x', DI).n < HALF], ensures=lambda c: [('rotations and reflections', c.ret == 2 * G(c, 'x', DI).n)])
C('pd_dihedral_ok', ['x'], requires=lambda c: wf(G(c, 'x', DI)),
  ensures=lambda c: (lambda a: [('accepts exactly the group elements', c.ret == z3.And(isor(a.orient), FA(0, a.n, lambda i: a.map[i] < a.n, pats=[lambda i: a.map[i]]), Or(a.orient != POS, rot(a)), Or(a.orient != NEG, refl(a))))])(G(c, 'x', DI)),
  inv=ok_inv(DI))

# ------------------------------------------------------------------ orientation
OR = 'pd_orientation_t'
C('pd_new_orientation', ['nodata'], allocs=True, ensures=lambda c: (lambda r: [('new storage', z3.And(r.valid(), r.idx == 0, c.fresh_obj(r))), ('positive', r.orient == POS)])(cast(c, c.ret, OR)), opts={'fresh_ret': True})
C('pd_copy_orientation', ['x'], allocs=True, requires=lambda c: [G(c, 'x', OR).valid()],
  ensures=lambda c: (lambda r: [('new storage', z3.And(r.valid(), r.idx == 0, c.fresh_obj(r))), ('value', r.orient == G(c, 'x', OR).orient)])(cast(c, c.ret, OR)), opts={'fresh_ret': True})
C('pd_free_orientation', ['p'],
  requires=lambda c: [c.p.valid(), Or(PP(c, 'p', OR).null, (lambda x: z3.And(x.valid(), x.idx == 0, x.obj > 900, Not(x.freed), x.obj != c.p.obj))(PP(c, 'p', OR)))],
  modifies=lambda c: [Ref(PPref(c, 'p', OR).elem(0))],
  frees=lambda c: [lambda o: z3.And(PP(c, 'p', OR).nonnull, o == PP(c, 'p', OR).obj)],
  ensures=lambda c: [('pointer cleared', PP(c, 'p', OR, c.new).null)])
C('pd_increment_orientation', ['x'], requires=lambda c: [G(c, 'x', OR).valid()], modifies=lambda c: [Ref(G(c, 'x', OR).elem(0).ref('orient'))],
  ensures=lambda c: [('flipped', Imp(isor(G(c, 'x', OR).orient), G(c, 'x', OR, c.new).orient == 1 - G(c, 'x', OR).orient))])
C('pd_norientations', ['x'], ensures=lambda c: [('two', c.ret == 2)])
C('pd_orientation_ok', ['x'], requires=lambda c: [G(c, 'x', OR).valid()], ensures=lambda c: [('accepts the two orientations', c.ret == isor(G(c, 'x', OR).orient))])


# ------------------------------------------------------------------ comparison
def cmp_req(T):
    def req(c):
        a, b = PP(c, 'A', T), PP(c, 'B', T)
        out = [PPref(c, 'A', T).valid(), PPref(c, 'B', T).valid()]
        for x in (a, b):
            out += wf(x) + [FA(0, x.n, lambda i: x.map[i] < HALF, pats=[lambda i: x.map[i]])]
        return out + [a.n == b.n] + ([isor(a.orient), isor(b.orient)] if T == DI else [])
    return req


def cmp_post(T):
    def post(c):
        a, b = PP(c, 'A', T), PP(c, 'B', T)
        same = a.orient == b.orient if T == DI else z3.BoolVal(True)
        eqto = lambda j: FA(0, j, lambda k: a.map[k] == b.map[k], pats=[lambda k: a.map[k]])
        out = [('0 iff equal', (c.ret == 0) == z3.And(same, eqto(a.n))),
               ('there is a first difference', Imp(z3.And(same, c.ret != 0), EX(0, a.n, lambda j: z3.And(a.map[j] != b.map[j], eqto(j))))),
               ('dictionary order', Imp(same, FA(0, a.n, lambda j: Imp(z3.And(a.map[j] != b.map[j], eqto(j)), (c.ret < 0) == (a.map[j] < b.map[j])))))]
        if T == DI:
            out.append(('rotations first', Imp(Not(same), (c.ret < 0) == (a.orient == POS))))
        return out
    return post


def cmp_inv(T):
    def inv(L):
        a, b = PP(L.c, 'A', T), PP(L.c, 'B', T)
        return [('equal so far %s' % k, FA(0, x, lambda j: a.map[j] == b.map[j], pats=[lambda j: a.map[j]])) for k, x in L.ints]
    return inv


for fn, T in (('pd_cyclic_cmp', CY), ('pd_dihedral_cmp', DI), ('pd_perm_cmp', 'pd_perm_t')):
    C(fn, ['A', 'B'], requires=cmp_req(T), ensures=cmp_post(T), inv=cmp_inv(T))
C('pd_orientation_cmp', ['A', 'B'],
  requires=lambda c: [PPref(c, n, OR).valid() for n in 'AB'] + [PP(c, n, OR).valid() for n in 'AB'] + [isor(PP(c, n, OR).orient) for n in 'AB'],
  ensures=lambda c: (lambda a, b: [('0 iff equal', (c.ret == 0) == (a.orient == b.orient)), ('positive first', (c.ret < 0) == z3.And(a.orient == POS, b.orient == NEG))])(PP(c, 'A', OR), PP(c, 'B', OR)))


def lex_post(c):
    a, b = c.A, c.B
    eqto = lambda j: FA(0, j, lambda k: a[k] == b[k], pats=[lambda k: a[k]])
    return [('0 iff equal', (c.ret == 0) == eqto(c.n)),
            ('there is a first difference', Imp(c.ret != 0, EX(0, c.n, lambda j: z3.And(a[j] != b[j], eqto(j))))),
            ('dictionary order', FA(0, c.n, lambda j: Imp(z3.And(a[j] != b[j], eqto(j)), (c.ret < 0) == (a[j] < b[j]))))]


C('pdint_perm_lex_cmp', ['n', 'A', 'B'], internal=True,
  requires=lambda c: [c.n < HALF, c.A.block(c.n), c.B.block(c.n), FA(0, c.n, lambda i: c.A[i] < HALF, pats=[lambda i: c.A[i]]), FA(0, c.n, lambda i: c.B[i] < HALF, pats=[lambda i: c.B[i]])],
  ensures=lex_post, inv=lambda L: [('equal so far %s' % k, FA(0, x, lambda j: L.c.A[j] == L.c.B[j], pats=[lambda j: L.c.A[j]])) for k, x in L.ints])

# ------------------------------------------------------------------ permutations
PE = 'pd_perm_t'


def isperm(x):
    """in range and injective"""
    i, j = z3.Ints('pmi pmj')
    return z3.And(FA(0, x.n, lambda k: x.map[k] < x.n, pats=[lambda k: x.map[k]]),
                  z3.ForAll([i, j], Imp(z3.And(0 <= i, i < j, j < x.n), x.map[i] != x.map[j]), patterns=[z3.MultiPattern(x.map[i], x.map[j])]))


C('pd_perms_eq', ['p', 'q'], requires=lambda c: wf(c.p) + wf(c.q),
  ensures=lambda c: [('same size and values', c.ret == z3.And(c.p.n == c.q.n, FA(0, c.p.n, lambda i: c.p.map[i] == c.q.map[i], pats=[lambda i: c.p.map[i]])))],
  inv=lambda L: [('equal so far %s' % k, FA(0, x, lambda i: L.c.p.map[i] == L.c.q.map[i], pats=[lambda i: L.c.p.map[i]])) for k, x in L.ints])
C('pd_perm_is_e', ['p'], requires=lambda c: wf(c.p), ensures=lambda c: [('the identity', c.ret == ident(c.p))],
  inv=lambda L: [('identity so far %s' % k, ident(L.c.p, x)) for k, x in L.ints])

# the pivot and the exchanged position of the next permutation: defined by the values before the call, and unique
K, Lx = z3.Ints('pivot exch')


def suffix(a, k):
    return FA(k + 1, a.n - 1, lambda i: a.map[i] >= a.map[i + 1], pats=[lambda i: a.map[i]])


def next_defs(c):
    a = G(c, 'x', PE)
    return [K >= -1, K <= a.n - 2, suffix(a, K), Imp(K >= 0, a.map[K] < a.map[K + 1]),
            Imp(K >= 0, z3.And(K < Lx, Lx < a.n, a.map[K] < a.map[Lx], FA(Lx + 1, a.n, lambda m: a.map[m] <= a.map[K], pats=[lambda m: a.map[m]])))]


def swapped(a, m):
    return z3.If(m == K, a.map[Lx], z3.If(m == Lx, a.map[K], a.map[m]))


def next_post(c):
    a, b = G(c, 'x', PE), G(c, 'x', PE, c.new)
    n = a.n
    P = lambda x: [lambda i: x.map[i]]
    return [('size kept', b.n == n), ('no table index', b.pc_idx == 0),
            ('from the last back to the identity', Imp(K < 0, ident(b))),
            ('head kept', Imp(K >= 0, FA(0, K, lambda i: b.map[i] == a.map[i], pats=P(b)))),
            ('pivot grows as little as possible', Imp(K >= 0, b.map[K] == a.map[Lx])),
            ('tail reversed', Imp(K >= 0, FA(K + 1, n, lambda m: b.map[m] == swapped(a, n + K - m), pats=P(b)))),
            ('a permutation', isperm(b))]


def next_inv(L):
    c = L.c
    a, b = G(c, 'x', PE), G(c, 'x', PE, L.cur)
    n = a.n
    P = [lambda i: b.map[i]]
    out = [('swapped', Imp(K >= 0, FA(0, n, lambda m: b.map[m] == swapped(a, m), pats=P))), ('pivot exists', K >= 0), ('no pivot', K < 0), ('index 0', b.pc_idx == 0)]
    for k, x in L.ints:
        out += [('pivot at or before %s' % k, K <= x), ('exchange at or before %s' % k, Lx <= x), ('exchange up to %s' % k, Imp(K >= 0, Lx <= x)), ('identity %s' % k, FA(0, x, lambda i: b.map[i] == i, pats=P)),
                ('above pivot %s' % k, K < x),
                ('reversed below %s' % k, FA(K + 1, x, lambda m: b.map[m] == swapped(a, n + K - m), pats=P)),
                ('reversed above %s' % k, FA(x + 1, n, lambda m: b.map[m] == swapped(a, n + K - m), pats=P))]
        for k2, y in L.ints:
            if k2 != k:
                out += [('middle %s %s' % (k, k2), FA(x, y + 1, lambda m: b.map[m] == swapped(a, m), pats=P)), ('mirror %s %s' % (k, k2), x + y == n + K), ('meet %s %s' % (k, k2), x <= y + 1)]
    out += [('head kept', FA(0, K + 1, lambda m: b.map[m] == swapped(a, m), pats=P))]
    return out


ENUM = 'permutations of up to %d elements (the tabulated ones): decided by complete enumeration, not by proof' % TABLE
C('pd_increment_perm', ['x'], requires=lambda c: wf(G(c, 'x', PE)) + [G(c, 'x', PE).n >= 1, isperm(G(c, 'x', PE)), G(c, 'x', PE).n < (1 << 30)],
  modifies=lambda c: [Rng(G(c, 'x', PE).map, 0, G(c, 'x', PE).n), Ref(G(c, 'x', PE).elem(0).ref('pc_idx'))],
  defs=next_defs, ensures=next_post, inv=next_inv, opts={'only': (lambda c: [G(c, 'x', PE).n > TABLE], ENUM)})
C('pd_perm_ok', ['x'], requires=lambda c: wf(G(c, 'x', PE)),
  ensures=lambda c: [('accepts exactly the permutations', c.ret == isperm(G(c, 'x', PE)))],
  inv=lambda L: (lambda a: [('in range %s' % k, FA(0, x, lambda i: a.map[i] < a.n, pats=[lambda i: a.map[i]])) for k, x in L.ints] +
                 [('distinct %s' % k, distinct_upto(a, x)) for k, x in L.ints] +
                 [('distinct in %s %s' % (k, k2), FA(y + 1, x, lambda j: a.map[y] != a.map[j], pats=[lambda j: a.map[j]])) for k, x in L.ints for k2, y in L.outer])(G(L.c, 'x', PE)),
  opts={'only': (lambda c: [G(c, 'x', PE).n > TABLE], ENUM)})
FACT = [1]
for q in range(1, 13):
    FACT.append(FACT[-1] * q)


def fact(n):
    r = zi(0)
    for q in range(13):
        r = z3.If(n == q, zi(FACT[q]), r)
    return r


C('pd_nperms', ['x'], requires=lambda c: [G(c, 'x', PE).valid(), G(c, 'x', PE).n <= 12, G(c, 'x', PE).n >= 1],
  ensures=lambda c: [('factorial', c.ret == fact(G(c, 'x', PE).n))],
  inv=lambda L: [('product so far %s %s' % (k, k2), x == fact(y - 1)) for k, x in L.ints for k2, y in L.ints if k != k2],
  opts={'only': (lambda c: [G(c, 'x', PE).n > TABLE], ENUM)})
C('pd_regenerate_pcidx', ['perm'], requires=lambda c: wf(c.perm), modifies=lambda c: [Ref(c.perm.elem(0).ref('pc_idx'))],
  abort=lambda c: c.perm.n <= TABLE,
  ensures=lambda c: [('no index beyond the table', Imp(c.perm.n > TABLE, c.perm_.pc_idx == 0))], opts={'only': (lambda c: [c.perm.n > TABLE], ENUM)})


def comp_post(c):
    a, b, r = c.A, c.B, c.ret
    return fresh2(c, r) + [('size', r.n == a.n), ('product', FA(0, a.n, lambda i: r.map[i] == a.map[b.map[i]], pats=[lambda i: r.map[i]]))]


def comp_inv(L):
    a, b = L.c.A, L.c.B
    out = []
    for ko, o in enumerate(cells(L)):
        out += [('product so far %s %s' % (k, ko), FA(0, x, lambda i: o[i] == a.map[b.map[i]], pats=[lambda i: o[i]])) for k, x in L.ints]
    return out


def two(c):
    return wf(c.A) + wf(c.B) + [c.A.n == c.B.n, isperm(c.A), isperm(c.B)]


C('pd_compose_perms', ['A', 'B'], requires=two, allocs=True, abort=lambda c: c.A.n <= TABLE, ensures=comp_post, inv=comp_inv, opts={'fresh_ret': True})
C('pd_stareq_perm', ['A', 'B'], requires=lambda c: two(c) + [c.A.map.obj != c.A.obj], allocs=True, abort=lambda c: c.A.n <= TABLE,
  modifies=lambda c: [Rng(c.A.map, 0, c.A.n), Ref(c.A.elem(0).ref('pc_idx'))],
  ensures=lambda c: [('size kept', c.A_.n == c.A.n), ('product', FA(0, c.A.n, lambda i: c.A_.map[i] == c.A.map[c.B.map[i]], pats=[lambda i: c.A_.map[i]]))], inv=comp_inv)


def inv_post(c):
    p, r = c.perm, c.ret
    return fresh2(c, r) + [('size', r.n == p.n), ('inverse', FA(0, p.n, lambda i: r.map[p.map[i]] == i, pats=[lambda i: p.map[i]]))]


def inverse_inv(L):
    p = L.c.perm
    out = []
    for ko, o in enumerate(cells(L)):
        out += [('inverse so far %s %s' % (k, ko), FA(0, x, lambda i: o[p.map[i]] == i, pats=[lambda i: p.map[i]])) for k, x in L.ints]
    return out


C('pd_inverse_perm', ['perm'], requires=lambda c: wf(c.perm) + [isperm(c.perm)], allocs=True, abort=lambda c: c.perm.n <= TABLE, ensures=inv_post, inv=inverse_inv, opts={'fresh_ret': True})
