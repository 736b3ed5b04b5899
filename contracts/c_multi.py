"""Tuples of iterators (pd_multidx.c).  The operations are function pointers: each call is checked to be a call of the
tuple's own operation, and the operation is abstracted by what its (separately proved) contract says: it advances,
copies, creates or judges the one object it is given."""
from common import *
CONTRACTS = {}
HALF = 1 << 31
STEPS = ('$steps', 0, 'int')        # ghost: how often an object has been advanced since its creation
NV = z3.Function('nvals', z3.IntSort(), z3.IntSort())
OKF = z3.Function('okobj', z3.IntSort(), z3.IntSort(), z3.IntSort())
CMPF = z3.Function('cmpobj', z3.IntSort(), z3.IntSort(), z3.IntSort())
DATA = z3.Function('initialdata', z3.IntSort(), z3.IntSort())
OPSN = ['new', 'free', 'print', 'copy', 'incr', 'nvals', 'ok', 'cmp']


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def steps(mem, o):
    return z3.Select(mem.arr(STEPS), o, zi(0), zi(0))


def ops_distinct(ops):
    ps = [getattr(ops, n) for n in OPSN]
    return [z3.And(*[p.nonnull for p in ps]), z3.Distinct(*[p.obj for p in ps])]


def newobj(eng, st, ins, nsteps):
    T = eng.types.named('pd_orientation_t') if False else None
    o = fresh('obj', I)
    return o


def hook_for(get_ops):
    def hook(eng, st, ins, args, fv):
        c = Ctx(eng, eng.con, eng.argvals, eng.pcts, eng.entry_mem, Mem(eng, st.heap, st.ctr))
        ops = get_ops(c)
        for nm in OPSN:
            if isinstance(fv, PV) and eng.prove(fv.o == getattr(ops, nm).obj):
                break
        else:
            raise Unsupported('indirect call that is not one of the operations of the tuple')
        eng.res.assumptions.add('an operation of an iterator (%s) touches no memory but the object it is given' % nm)
        z = zi(0)
        h = eng.hget(st, STEPS)
        if nm == 'incr':
            o = args[0].o
            st.heap[STEPS] = z3.Store(h, o, z, z, z3.Select(h, o, z, z) + 1)
        elif nm == 'nvals':
            t = NV(args[0].o)
            eng.assume(z3.And(t >= 0, t < (1 << 32)))
            st.regs[ins.res] = IV(t, 32, False)
        elif nm == 'ok':
            t = OKF(args[0].o, z3.Select(h, args[0].o, z, z))
            st.regs[ins.res] = BV1(t != 0)
        elif nm == 'cmp':
            T = eng.cparse('void *')
            a, b = [RefView(Mem(eng, st.heap, st.ctr), PV(x.o, x.i, x.T or T, x.off, x.dyn), T).value() for x in args]
            t = CMPF(a.obj, b.obj)
            eng.assume(z3.And(t >= -HALF, t < HALF))
            st.regs[ins.res] = IV(t, 32, True)
        elif nm in ('new', 'copy'):
            p = eng.new_object(st, eng.types.named('pd_idx_t'), z3.IntVal(1))
            val = z if nm == 'new' else z3.Select(h, args[0].o, z, z)
            eng.assume(z3.Select(eng.hget(st, STEPS), p.o, z, z) == val)
            if nm == 'new':
                eng.assume(DATA(p.o) == args[0].o)
            else:
                eng.assume(z3.And(DATA(p.o) == DATA(args[0].o), NV(p.o) == NV(args[0].o)))
            st.regs[ins.res] = p
        else:
            return False
        return True
    return hook


def ops_of(c):
    return c.idx.ops


def wfm(x):
    return [x.valid(), x.nobj < HALF, x.elem(0).obj.block(x.nobj), x.i.block(x.nobj), x.nvals.block(x.nobj), x.i.obj != x.nvals.obj]


Q = z3.Int('carry')     # the last position that does not roll over, or -1


def inc_req(c):
    x = c.idx
    a, b = z3.Ints('oa ob')
    return wfm(x) + ops_distinct(x.ops) + [
        FA(0, x.nobj, lambda j: z3.And(x.i[j] < x.nvals[j], x.nvals[j] < HALF), pats=[lambda j: x.i[j]]),
        z3.ForAll([a, b], Imp(z3.And(0 <= a, a < b, b < x.nobj), x.elem(0).obj[a].obj != x.elem(0).obj[b].obj), patterns=[z3.MultiPattern(x.elem(0).obj[a].obj, x.elem(0).obj[b].obj)])]


def inc_defs(c):
    x = c.idx
    return [Q >= -1, Q < x.nobj, FA(Q + 1, x.nobj, lambda j: x.i[j] + 1 == x.nvals[j], pats=[lambda j: x.i[j]]), Imp(Q >= 0, x.i[Q] + 1 != x.nvals[Q])]


def inc_post(c):
    x, y = c.idx, c.idx_
    f = z3.If(Q < 0, zi(0), Q)
    return [('leading positions kept', FA(0, Q, lambda j: y.i[j] == x.i[j], pats=[lambda j: y.i[j]])),
            ('one position advances', Imp(Q >= 0, y.i[Q] == x.i[Q] + 1)),
            ('trailing positions roll over', FA(Q + 1, x.nobj, lambda j: y.i[j] == 0, pats=[lambda j: y.i[j]])),
            ('objects advance with their positions', FA(0, x.nobj, lambda j: steps(c.new, x.elem(0).obj[j].obj) == steps(c.old, x.elem(0).obj[j].obj) + ite(j >= f, 1, 0), pats=[lambda j: x.elem(0).obj[j].obj]))]


def inc_inv(L):
    x = L.c.idx
    y = L.c.arg('idx', L.cur)
    f = z3.If(Q < 0, zi(0), Q)
    out = []
    for k, v in L.ints:
        out += [('ready %s' % k, v <= x.nobj - 1 - Q),
                ('from carry %s' % k, v >= f),
                ('done %s' % k, FA(f, v, lambda j: y.i[j] == ite(j == Q, x.i[j] + 1, 0), pats=[lambda j: y.i[j]])),
                ('todo %s' % k, FA(v, x.nobj, lambda j: y.i[j] == x.i[j], pats=[lambda j: y.i[j]])),
                ('lead %s' % k, FA(0, f, lambda j: y.i[j] == x.i[j], pats=[lambda j: y.i[j]])),
                ('objects %s' % k, FA(0, x.nobj, lambda j: steps(L.cur, x.elem(0).obj[j].obj) == steps(L.old, x.elem(0).obj[j].obj) + ite(z3.And(j >= f, j < v), 1, 0), pats=[lambda j: x.elem(0).obj[j].obj]))]
    return out


def steps_region(c):
    x = c.idx

    def f(key):
        if key != STEPS:
            return None
        j = z3.Int('sj')
        return lambda o, i, jj: z3.Exists([j], z3.And(0 <= j, j < x.nobj, o == x.elem(0).obj[j].obj))
    return Pred(f)


C('pd_increment_multidx', ['idx'], requires=inc_req, modifies=lambda c: [Rng(c.idx.i, 0, c.idx.nobj), steps_region(c)], defs=inc_defs, ensures=inc_post, inv=inc_inv, hook=hook_for(ops_of))


# ---- number of values: the product (no partial product reaches 2^32)
PR = z3.Function('prodvals', z3.IntSort(), z3.IntSort())
PR1 = z3.Function("prodvals'", z3.IntSort(), z3.IntSort())


def pr_defs(c):
    k = z3.Int('pk')
    return [z3.ForAll([k], z3.And(PR(k) == z3.If(k <= 0, zi(1), PR1(k - 1) * c.idx.nvals[k - 1]), PR(k) == PR1(k)), patterns=[PR(k)])]


C('pd_multidx_nvals', ['idx'], defs=pr_defs,
  requires=lambda c: wfm(c.idx) + [FA(0, c.idx.nobj + 1, lambda k: z3.And(PR(k) >= 0, PR(k) < (1 << 32)), pats=[lambda k: PR(k)])],
  ensures=lambda c: [('product', c.ret == PR(c.idx.nobj))],
  inv=lambda L: [('product so far %s %s' % (k, k2), x == PR(y)) for k, x in L.ints for k2, y in L.ints if k != k2])


# ---- validity
def good(c, j, mem):
    x = c.idx
    return OKF(x.elem(0).obj[j].obj, steps(mem, x.elem(0).obj[j].obj)) != 0


C('pd_multidx_ok', ['idx'], requires=lambda c: [Or(c.idx.null, z3.And(*([c.idx.valid(), c.idx.nobj < HALF] + [Or(p.null, p.block(c.idx.nobj)) for p in (c.idx.i, c.idx.nvals)] + [c.idx.elem(0).obj.block(c.idx.nobj)] + ops_distinct(c.idx.ops))))],
  ensures=lambda c: [('objects good and positions in range', c.ret == Or(c.idx.null, c.idx.nobj == 0, z3.And(c.idx.i.nonnull, c.idx.nvals.nonnull, FA(0, c.idx.nobj, lambda j: good(c, j, c.old), pats=[lambda j: c.idx.elem(0).obj[j].obj]), FA(0, c.idx.nobj, lambda j: c.idx.i[j] < c.idx.nvals[j], pats=[lambda j: c.idx.i[j]]))))],
  inv=lambda L: [('good %s' % k, FA(0, x, lambda j: good(L.c, j, L.old), pats=[lambda j: L.c.idx.elem(0).obj[j].obj])) for k, x in L.ints] + [('in range %s' % k, FA(0, x, lambda j: L.c.idx.i[j] < L.c.idx.nvals[j], pats=[lambda j: L.c.idx.i[j]])) for k, x in L.ints],
  hook=hook_for(ops_of))


# ---- creation and copying
def parts(c, r, nobj):
    return [('new storage', z3.And(r.valid(), r.idx == 0, c.fresh_obj(r), r.obj_.block(nobj) if False else z3.BoolVal(True)))]


def new_post(c):
    r = c.ret
    n = c.nobj
    return [('valid', z3.And(r.valid(), r.pv.i == 0, c.fresh_obj(r))), ('size', r.nobj == n),
            ('buffers', z3.And(r.elem(0).obj.block(n), r.i.block(n), r.nvals.block(n), c.fresh_obj(r.elem(0).obj), c.fresh_obj(r.i), c.fresh_obj(r.nvals), z3.Distinct(r.pv.o, r.elem(0).obj.pv.o, r.i.pv.o, r.nvals.pv.o))),
            ('at the start', FA(0, n, lambda j: r.i[j] == 0, pats=[lambda j: r.i[j]])),
            ('numbers of values', FA(0, n, lambda j: r.nvals[j] == NV(r.elem(0).obj[j].pv.o), pats=[lambda j: r.nvals[j]])),
            ('new objects', FA(0, n, lambda j: z3.And(c.fresh_obj(r.elem(0).obj[j]), steps(c.new, r.elem(0).obj[j].pv.o) == 0, DATA(r.elem(0).obj[j].pv.o) == ite(c.initialdata.null, 0, c.initialdata[j].pv.o)), pats=[lambda j: r.elem(0).obj[j].pv.o])),
            ('operations', z3.And(*[getattr(r.ops, nm).pv.o == getattr(c.ops, nm).pv.o for nm in OPSN]))]


def strs(L):
    return [o for o in L.objs if o.ct.k == 'struct' and any(m[0] == 'nobj' for m in o.ct.members)]


def new_inv(L):
    out = []
    c = L.c
    for r in strs(L)[:1]:
        ob = r.elem(0).obj
        for k, x in L.ints + [('all', c.nobj)]:
            out += [('start %s' % k, FA(0, x, lambda j: r.i[j] == 0, pats=[lambda j: r.i[j]])),
                    ('numbers %s' % k, FA(0, x, lambda j: r.nvals[j] == NV(ob[j].pv.o), pats=[lambda j: r.nvals[j]])),
                    ('objects %s' % k, FA(0, x, lambda j: z3.And(ob[j].pv.o > c.old.ctr, ob[j].pv.o <= L.cur.ctr, steps(L.cur, ob[j].pv.o) == 0, DATA(ob[j].pv.o) == ite(c.initialdata.null, 0, c.initialdata[j].pv.o)), pats=[lambda j: ob[j].pv.o]))]
    return out


C('pd_new_multidx', ['nobj', 'initialdata', 'ops'], allocs=True,
  requires=lambda c: [c.nobj < HALF, Or(c.initialdata.null, c.initialdata.block(c.nobj))] + ops_distinct(c.ops),
  ensures=new_post, inv=new_inv, hook=hook_for(lambda c: c.ops), opts={'fresh_ret': True})


def copy_facts(c, r, x, mem):
    s = c.idx
    ob, so = r.elem(0).obj, s.elem(0).obj
    return [('positions', FA(0, x, lambda j: r.i[j] == s.i[j], pats=[lambda j: r.i[j]])),
            ('numbers', FA(0, x, lambda j: r.nvals[j] == s.nvals[j], pats=[lambda j: r.nvals[j]])),
            ('objects copied', FA(0, x, lambda j: z3.And(ob[j].pv.o > c.old.ctr, ob[j].pv.o <= mem.ctr, steps(mem, ob[j].pv.o) == steps(c.old, so[j].pv.o), DATA(ob[j].pv.o) == DATA(so[j].pv.o)), pats=[lambda j: ob[j].pv.o]))]


def copy_post(c):
    r, n = c.ret, c.idx.nobj
    return [('valid', z3.And(r.valid(), r.pv.i == 0, c.fresh_obj(r))), ('size', r.nobj == n),
            ('buffers', z3.And(r.elem(0).obj.block(n), r.i.block(n), r.nvals.block(n), c.fresh_obj(r.elem(0).obj), c.fresh_obj(r.i), c.fresh_obj(r.nvals), z3.Distinct(r.pv.o, r.elem(0).obj.pv.o, r.i.pv.o, r.nvals.pv.o))),
            ('operations', z3.And(*[getattr(r.ops, nm).pv.o == getattr(c.idx.ops, nm).pv.o for nm in OPSN]))] + copy_facts(c, r, n, c.new)


C('pd_copy_multidx', ['idx'], allocs=True, requires=lambda c: wfm(c.idx) + ops_distinct(c.idx.ops) + [FA(0, c.idx.nobj, lambda j: z3.And(c.idx.elem(0).obj[j].pv.o > 0, c.idx.elem(0).obj[j].pv.o <= c.old.ctr), pats=[lambda j: c.idx.elem(0).obj[j].pv.o])],
  ensures=copy_post, inv=lambda L: [('%s %s' % (l, k), f) for r in strs(L)[:1] for k, x in L.ints for l, f in copy_facts(L.c, r, x, L.cur)], hook=hook_for(ops_of), opts={'fresh_ret': True})


# ---- comparison
def mm(c, nm):
    p = c.arg(nm)
    T = c.eng.cparse('pd_multidx_t *')
    return PtrView(p.mem, PV(p.pv.o, p.pv.i, T), T)


def cmp_at(a, b, j):
    return CMPF(a.elem(0).obj[j].pv.o, b.elem(0).obj[j].pv.o)


def mcmp_post(c):
    a, b = mm(c, 'A')[0], mm(c, 'B')[0]
    n = a.nobj
    z = lambda j: FA(0, j, lambda k: cmp_at(a, b, k) == 0, pats=[lambda k: cmp_at(a, b, k)])
    return [('0 iff all equal', (c.ret == 0) == z(n)), ('first difference decides', FA(0, n, lambda j: Imp(z3.And(cmp_at(a, b, j) != 0, z(j)), c.ret == cmp_at(a, b, j)), pats=[lambda j: cmp_at(a, b, j)]))]


def same_ops(a, b):
    return [getattr(a.ops, n).pv.o == getattr(b.ops, n).pv.o for n in OPSN]


C('pd_iterops_eq', ['opsA', 'opsB'], ensures=lambda c: [('the same operations', c.ret == z3.And(*[getattr(c.opsA, n).pv.o == getattr(c.opsB, n).pv.o for n in OPSN]))])
C('pd_multidx_cmp', ['A', 'B'],
  requires=lambda c: [mm(c, 'A').valid(), mm(c, 'B').valid()] + [f for nm in 'AB' for f in (lambda x: [x.valid(), x.nobj < HALF, x.elem(0).obj.block(x.nobj)])(mm(c, nm)[0])] + [mm(c, 'A')[0].nobj == mm(c, 'B')[0].nobj] + same_ops(mm(c, 'A')[0], mm(c, 'B')[0]) + ops_distinct(mm(c, 'A')[0].ops),
  ensures=mcmp_post,
  inv=lambda L: [('equal so far %s' % k, FA(0, x, lambda j: cmp_at(mm(L.c, 'A')[0], mm(L.c, 'B')[0], j) == 0, pats=[lambda j: cmp_at(mm(L.c, 'A')[0], mm(L.c, 'B')[0], j)])) for k, x in L.ints],
  hook=hook_for(lambda c: mm(c, 'A')[0].ops))
