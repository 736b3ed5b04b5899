"""Containers of pointers (pd_container.c) and sorted buffers of indices (pd_sortedbuf.c)."""
from common import *
CONTRACTS = {}
HALF = 1 << 31


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def wfc(x):
    """ready to add or read elements"""
    return [x.valid(), x.nelts < x.bufsize, x.elt.block(x.bufsize), x.elt.obj > 900, x.initsize >= 1, x.elt.obj != x.obj]


def kept(a, b, hi):
    return FA(0, hi, lambda j: b.elt[j].obj == a.elt[j].obj, pats=[lambda j: b.elt[j].obj])


C('pd_new_container', ['initsize'], allocs=True, requires=lambda c: [c.initsize < HALF],
  ensures=lambda c: (lambda r: [('empty', z3.And(r.valid(), r.idx == 0, c.fresh_obj(r), r.nelts == 0)), ('room', z3.And(r.elt.block(r.bufsize), c.fresh_obj(r.elt), r.elt.obj != r.obj)),
                                ('as asked', z3.And(r.bufsize == r.initsize, r.bufsize >= c.initsize, r.bufsize >= 2))])(c.ret), opts={'fresh_ret': True})
C('pd_container_nelts', ['cont'], requires=lambda c: [c.cont.valid()], ensures=lambda c: [('count', c.ret == c.cont.nelts)])


def add_post(c):
    a, b = c.cont, c.cont_
    return [('one more', b.nelts == a.nelts + 1), ('the element is last', b.elt[a.nelts].obj == c.new_elt.obj), ('the others stay', kept(a, b, a.nelts)),
            ('ready for more', z3.And(b.valid(), b.nelts < b.bufsize, b.elt.block(b.bufsize), b.initsize == a.initsize)),
            ('a replaced buffer is released', Imp(b.elt.obj != a.elt.obj, c.new.freed(a.elt.obj))), ('the buffer in use is not', Not(c.new.freed(b.elt.obj)))]


def add_inv(L):
    a, b = L.c.cont, L.c.arg('cont', L.cur)
    return [('the others stay', kept(a, b, a.nelts)), ('size', b.nelts == a.nelts), ('buffer', b.elt.block(b.bufsize)), ('grown', b.bufsize == a.bufsize + a.initsize), ('step', b.initsize == a.initsize)]


C('pd_addto_container', ['cont', 'new_elt'], allocs=True,
  requires=lambda c: wfc(c.cont) + [(c.cont.bufsize + c.cont.initsize) * 8 < M32],
  modifies=lambda c: [Obj(c.cont), Obj(c.cont.elt)], frees=lambda c: [('may', lambda o: o == c.cont.elt.obj)],
  ensures=add_post, inv=add_inv)
C('pd_pop_container', ['cont'], requires=lambda c: wfc(c.cont) + [c.cont.nelts > 0],
  modifies=lambda c: [Ref(c.cont.elem(0).ref('nelts')), Rng(c.cont.elt, c.cont.nelts - 1, c.cont.nelts)],
  ensures=lambda c: [('the last element', c.ret.obj == c.cont.elt[c.cont.nelts - 1].obj), ('one less', c.cont_.nelts == c.cont.nelts - 1), ('the others stay', kept(c.cont, c.cont_, c.cont.nelts - 1)),
                     ('ready for more', c.cont_.nelts < c.cont_.bufsize)])
C('pd_container_elt', ['cont', 'i'], requires=lambda c: wfc(c.cont) + [c.i < c.cont.nelts], ensures=lambda c: [('the element', c.ret.obj == c.cont.elt[c.i].obj)])
C('pd_container_ok', ['cont'], requires=lambda c: [Or(c.cont.null, c.cont.valid())],
  ensures=lambda c: [('ready', c.ret == z3.And(c.cont.nonnull, c.cont.nelts < c.cont.bufsize, c.cont.elt.nonnull))])

# ------------------------------------------------------------------ sorted buffers
V = lambda p, k: p[k]


def ix(c, nm):
    return typed(c, nm, 'pd_idx_t')


C('pd_idx_cmp', ['a', 'b'], argtypes=['void *', 'void *'], requires=lambda c: [ix(c, 'a').valid(), ix(c, 'b').valid()],
  ensures=lambda c: [('order', z3.And((c.ret < 0) == (ix(c, 'a')[0] < ix(c, 'b')[0]), (c.ret > 0) == (ix(c, 'a')[0] > ix(c, 'b')[0])))],
  opts={'order': lambda A, B: A.value() <= B.value(), 'equal': lambda A, B: A.value() == B.value()})


def incr(p, n):
    i, j = z3.Ints('si sj')
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < j, j < n), p[i] < p[j]), patterns=[z3.MultiPattern(p[i], p[j])])


C('pd_sortedbuf_contains', ['buf', 'n', 'i'], requires=lambda c: [c.buf.valid(c.n), incr(c.buf, c.n)],
  ensures=lambda c: [('member', c.ret == EX(0, c.n, lambda k: c.buf[k] == c.i))])

POS_ = z3.Int('place')      # where the new value belongs: unique


def ins_defs(c):
    b, n = c.buf, c.nelems[0]
    return [Imp(b.nonnull, z3.And(0 <= POS_, POS_ <= n, FA(0, POS_, lambda k: b[k] < c.ins, pats=[lambda k: b[k]]), FA(POS_, n, lambda k: b[k] >= c.ins, pats=[lambda k: b[k]]))), Imp(b.null, POS_ == 0)]


def ins_post(c):
    b, n, r = c.buf, c.nelems[0], c.ret
    m = c.nelems_[0]
    here = z3.And(POS_ < n, b[POS_] == c.ins)
    return [('already there', Imp(here, z3.And(m == n, r.same(b)))),
            ('one more', Imp(Not(here), z3.And(m == n + 1, r.block(n + 1), c.fresh_obj(r)))),
            ('smaller values stay', Imp(Not(here), FA(0, POS_, lambda k: r[k] == b[k], pats=[lambda k: r[k]]))),
            ('the value in its place', Imp(Not(here), r[POS_] == c.ins)),
            ('larger values move up', Imp(Not(here), FA(POS_ + 1, n + 1, lambda k: r[k] == b[k - 1], pats=[lambda k: r[k]]))),
            ('the replaced buffer is released', Imp(z3.And(b.nonnull, r.obj != b.obj), c.new.freed(b.obj))), ('sorted', incr(r, m))]


def ins_inv(L):
    c = L.c
    b, n = c.buf, c.nelems[0]
    out = []
    for ko, r in enumerate([o for o in L.objs if o.ct.k == 'int']):
        for k, x in L.ints:
            out += [('head %s %s' % (k, ko), FA(0, x, lambda q: Imp(q < POS_, r[q] == b[q]), pats=[lambda q: r[q]])),
                    ('place %s %s' % (k, ko), Imp(POS_ < x, r[POS_] == c.ins)),
                    ('tail %s %s' % (k, ko), FA(POS_ + 1, x, lambda q: r[q] == b[q - 1], pats=[lambda q: r[q]]))]
            for k2, y in L.ints:
                if k != k2:
                    out += [('lag %s %s' % (k, k2), y == ite(POS_ < x, x + 1, x)), ('lag2 %s %s' % (k, k2), Imp(x <= POS_, y == x))]
                    out += [('head2 %s %s %s' % (k, k2, ko), FA(0, y, lambda q: Imp(q < POS_, r[q] == b[q]), pats=[lambda q: r[q]])),
                            ('place2 %s %s %s' % (k, k2, ko), Imp(POS_ < x, r[POS_] == c.ins)),
                            ('tail2 %s %s %s' % (k, k2, ko), FA(POS_ + 1, y, lambda q: r[q] == b[q - 1], pats=[lambda q: r[q]]))]
    return out


C('pd_sortedbuf_insert', ['buf', 'nelems', 'ins'], allocs=True, defs=ins_defs,
  requires=lambda c: [c.nelems.valid(), c.nelems[0] < (1 << 29), c.buf.null == (c.nelems[0] == 0),
                      Imp(c.buf.nonnull, z3.And(c.buf.block(c.nelems[0]), c.buf.obj > 900, c.buf.obj != c.nelems.obj, incr(c.buf, c.nelems[0])))],
  modifies=lambda c: [Ref(c.nelems.elem(0))], frees=lambda c: [('may', lambda o: z3.And(c.buf.nonnull, o == c.buf.obj))],
  ensures=ins_post, inv=ins_inv)
C('pd_buf_contains', ['buf', 'n', 'i', 'where'], requires=lambda c: [c.buf.valid(c.n), c.where.valid(), c.where.obj != c.buf.obj],
  modifies=lambda c: [Ref(c.where.elem(0))],
  ensures=lambda c: [('member', c.ret == EX(0, c.n, lambda k: c.buf[k] == c.i)), ('first position', Imp(c.ret, z3.And(c.where_[0] < c.n, c.buf[c.where_[0]] == c.i, FA(0, c.where_[0], lambda k: c.buf[k] != c.i, pats=[lambda k: c.buf[k]])))), ('unset', Imp(Not(c.ret), c.where_[0] == M32 - 1))],
  inv=lambda L: [('not before %s' % k, FA(0, x, lambda q: L.c.buf[q] != L.c.i, pats=[lambda q: L.c.buf[q]])) for k, x in L.ints])
