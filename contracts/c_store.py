"""Creation, copying and release of pd-codes (pdcode.c)."""
from common import *
CONTRACTS = {}


def C(name, args, **kw):
    CONTRACTS[name] = Contract(name, args, **kw)


def empty_slots(pd):
    return [('components empty', FA(0, pd.MAXCOMPONENTS, lambda i: z3.And(pd.comp[i].edge.null, pd.comp[i].nedges == 0, pd.comp[i].tag == 0))),
            ('faces empty', FA(0, pd.MAXFACES, lambda i: z3.And(pd.face[i].edge.null, pd.face[i].orient.null, pd.face[i].nedges == 0)))]


def sizes(pd, mv):
    return [('capacity', z3.And(pd.MAXVERTS == mv, pd.MAXEDGES == 2 * mv + 1, pd.MAXCOMPONENTS == mv / 2 + 2, pd.MAXFACES == mv + 2))]


def arrays(c, pd):
    ps = [pd.edge, pd.comp, pd.cross, pd.face]
    return [('arrays', z3.And(pd.edge.block(pd.MAXEDGES), pd.comp.block(pd.MAXCOMPONENTS), pd.cross.block(pd.MAXVERTS), pd.face.block(pd.MAXFACES))),
            ('new storage', z3.And(*[c.fresh_obj(p) for p in [pd] + ps])),
            ('separate storage', z3.Distinct(pd.obj, *[p.obj for p in ps]))]


def cap(mv):
    return z3.If(mv == 1, zi(2), mv)


C('pd_code_new', ['mv'], allocs=True,
  requires=lambda c: [c.mv > 0, c.mv < (1 << 30)],
  ensures=lambda c: [('valid', z3.And(c.ret.valid(), c.ret.idx == 0))] + sizes(c.ret, cap(c.mv)) + arrays(c, c.ret) + empty_slots(c.ret) +
  [('empty', z3.And(c.ret.ncross == 0, c.ret.nedges == 0, c.ret.ncomps == 0, c.ret.nfaces == 0, c.ret.uid == 0))],
  opts={'fresh_ret': True})


# ------------------------------------------------------------------ free
Own = z3.Function('Own', z3.IntSort(), z3.IntSort())


def blk(p):
    """NULL or a live block start"""
    return Or(p.null, z3.And(p.idx == 0, p.obj > 900, Not(p.freed)))


def thepd(c, mem=None):
    return c.arg('PD', mem)[0] if False else c.arg('PD', mem).elem(0).value()


def owned(pd):
    """every buffer is the start of a live block"""
    return [pd.valid(), pd.idx == 0, pd.obj > 900] + [blk(p) for p in (pd.edge, pd.comp, pd.cross, pd.face)] + [
        Imp(pd.comp.nonnull, pd.MAXCOMPONENTS > 0), Imp(pd.face.nonnull, pd.MAXFACES > 0),
        Imp(pd.comp.nonnull, pd.comp.block(pd.MAXCOMPONENTS)), Imp(pd.face.nonnull, pd.face.block(pd.MAXFACES)),
        Imp(pd.comp.nonnull, FA(0, pd.MAXCOMPONENTS, lambda i: blk(pd.comp[i].edge))),
        Imp(pd.face.nonnull, FA(0, pd.MAXFACES, lambda i: z3.And(blk(pd.face[i].edge), blk(pd.face[i].orient))))]


def codes(pd):
    """no two buffers share storage: each owned block has its own code"""
    n = lambda p, k: Imp(p.nonnull, Own(p.obj) == k)
    return [Own(pd.obj) == -1, n(pd.edge, -2), n(pd.comp, -3), n(pd.cross, -4), n(pd.face, -5),
            Imp(pd.comp.nonnull, FA(0, pd.MAXCOMPONENTS, lambda i: n(pd.comp[i].edge, 4 * i), pats=[lambda i: pd.comp[i].edge.obj])),
            Imp(pd.face.nonnull, FA(0, pd.MAXFACES, lambda i: z3.And(n(pd.face[i].edge, 4 * i + 1), n(pd.face[i].orient, 4 * i + 2)), pats=[lambda i: pd.face[i].edge.obj, lambda i: pd.face[i].orient.obj]))]


def in_comp(pd, o, hi=None):
    k = Own(o) / 4
    return z3.And(pd.comp.nonnull, Own(o) % 4 == 0, 0 <= k, k < (pd.MAXCOMPONENTS if hi is None else hi), o == pd.comp[k].edge.obj, o != 0)


def in_face(pd, o, hi=None):
    k = Own(o) / 4
    return z3.And(pd.face.nonnull, 0 <= k, k < (pd.MAXFACES if hi is None else hi), o != 0,
                  Or(z3.And(Own(o) % 4 == 1, o == pd.face[k].edge.obj), z3.And(Own(o) % 4 == 2, o == pd.face[k].orient.obj)))


def pdset(pd, o):
    return Or(z3.And(o != 0, Or(o == pd.obj, o == pd.edge.obj, o == pd.comp.obj, o == pd.cross.obj, o == pd.face.obj)), in_comp(pd, o), in_face(pd, o))


def free_mods(c):
    pd = c.PD.elem(0).value()
    return [Ref(c.PD.elem(0)), Obj(pd), Obj(pd.comp), Obj(pd.face)]


def fr(L, o, mem):
    return mem.freed(o)


def free_inv(L):
    pd = L.c.PD.elem(0).value()
    out = []
    o = z3.Int('uo')
    f1, f0 = L.cur.freed(o), L.old.freed(o)
    pat = z3.Select(L.cur.arr(FREED), o, z3.IntVal(0), z3.IntVal(0))
    def onlyset(s):
        return z3.ForAll([o], Imp(z3.And(f1, Not(f0)), s), patterns=[pat]) if not z3.is_const(pat) else None
    cur = L.c.arg('PD', L.cur).elem(0).value()
    for k, x in L.ints + [('all', pd.MAXCOMPONENTS)]:
        out += [('comps released %s' % k, Imp(pd.comp.nonnull, FA(0, x, lambda i: Or(pd.comp[i].edge.null, L.cur.freed(pd.comp[i].edge.obj)), pats=[lambda i: pd.comp[i].edge.obj]))),
                ('faces released %s' % k, Imp(pd.face.nonnull, FA(0, x, lambda i: z3.And(Or(pd.face[i].edge.null, L.cur.freed(pd.face[i].edge.obj)), Or(pd.face[i].orient.null, L.cur.freed(pd.face[i].orient.obj))), pats=[lambda i: pd.face[i].edge.obj, lambda i: pd.face[i].orient.obj]))),
                ('freed comp only %s' % k, onlyset(in_comp(pd, o, x))),
                ('freed comp or face %s' % k, onlyset(Or(in_comp(pd, o), o == pd.comp.obj, in_face(pd, o, x)))),
                ('rest of comps %s' % k, FA(x, pd.MAXCOMPONENTS, lambda i: cur.comp[i].edge.obj == pd.comp[i].edge.obj, pats=[lambda i: cur.comp[i].edge.obj])),
                ('rest of faces %s' % k, FA(x, pd.MAXFACES, lambda i: z3.And(cur.face[i].edge.obj == pd.face[i].edge.obj, cur.face[i].orient.obj == pd.face[i].orient.obj), pats=[lambda i: cur.face[i].edge.obj, lambda i: cur.face[i].orient.obj]))]
    return [x for x in out if x[1] is not None]


def free_req(c):
    p = c.PD.elem(0).value()
    return [c.PD.valid(), Or(p.null, z3.And(*(owned(p) + codes(p) + [p.MAXCOMPONENTS < (1 << 31), Own(c.PD.obj) == -9])))]


C('pd_code_free', ['PD'],
  requires=free_req, modifies=free_mods,
  frees=lambda c: [lambda o: z3.And(c.PD.elem(0).value().nonnull, pdset(c.PD.elem(0).value(), o))],
  ensures=lambda c: [('pointer cleared', c.arg('PD', c.new).elem(0).value().null)],
  inv=free_inv)


# ------------------------------------------------------------------ copy
def copy_req(c):
    pd = c.pd
    mv = newcap(c)
    return [pd.valid(), pd.ncross > 0, pd.ncross < (1 << 29), mv < (1 << 30), pd.nedges <= 2 * pd.ncross + 1, pd.ncomps <= pd.ncross / 2 + 2, pd.nfaces <= pd.ncross + 2,
            pd.cross.block(pd.ncross), pd.edge.block(pd.nedges), pd.comp.block(pd.ncomps), pd.face.block(pd.nfaces),
            FA(0, pd.ncomps, lambda i: z3.And((pd.comp[i].nedges == 0) == pd.comp[i].edge.null, Imp(pd.comp[i].edge.nonnull, pd.comp[i].edge.block(pd.comp[i].nedges)))),
            FA(0, pd.nfaces, lambda i: z3.And((pd.face[i].nedges == 0) == pd.face[i].edge.null, pd.face[i].orient.null == pd.face[i].edge.null,
                                             Imp(pd.face[i].edge.nonnull, z3.And(pd.face[i].edge.block(pd.face[i].nedges), pd.face[i].orient.block(pd.face[i].nedges)))))]


def newcap(c):
    if 'MAXVERTS' in c.contract.args:
        m = z3.If(c.MAXVERTS < c.pd.ncross, c.pd.ncross, c.MAXVERTS)
    else:
        m = c.pd.ncross
    return m


def above(a, o):
    """the buffer was allocated after the five arrays"""
    return z3.And(*[o > b for b in base5(a)])


def comps_parts(c, a, mem, x):
    pd = c.pd
    P = [lambda i: a.comp[i].edge.obj]
    big = lambda i: pd.comp[i].nedges > 0
    return [('counts', FA(0, x, lambda i: a.comp[i].nedges == pd.comp[i].nedges, pats=P + [lambda i: a.comp[i].nedges])),
            ('tags', FA(0, x, lambda i: Imp(big(i), a.comp[i].tag == pd.comp[i].tag), pats=[lambda i: a.comp[i].tag])),
            ('null', FA(0, x, lambda i: Imp(Not(big(i)), a.comp[i].edge.null), pats=P)),
            ('edge buffers', FA(0, x, lambda i: Imp(big(i), z3.And(a.comp[i].edge.block(pd.comp[i].nedges), a.comp[i].edge.obj > c.old.ctr, a.comp[i].edge.obj <= mem.ctr)), pats=P)),
            ('apart', FA(0, x, lambda i: Imp(big(i), above(a, a.comp[i].edge.obj)), pats=P))]


def comp_contents(c, a, x):
    pd = c.pd
    i, j = z3.Ints('cci ccj')
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < x, 0 <= j, j < pd.comp[i].nedges), a.comp[i].edge[j] == pd.comp[i].edge[j]), patterns=[a.comp[i].edge[j]])


def comp_order(a, x):
    i, k = z3.Ints('coi cok')
    return z3.ForAll([i, k], Imp(z3.And(0 <= i, i < k, k < x, a.comp[i].edge.nonnull, a.comp[k].edge.nonnull), a.comp[i].edge.obj < a.comp[k].edge.obj),
                     patterns=[z3.MultiPattern(a.comp[i].edge.obj, a.comp[k].edge.obj)])


def comps_empty(a, x):
    return FA(x, a.MAXCOMPONENTS, lambda i: z3.And(a.comp[i].edge.null, a.comp[i].nedges == 0), pats=[lambda i: a.comp[i].edge.obj, lambda i: a.comp[i].nedges])


def faces_parts(c, a, mem, x, lo=None):
    pd = c.pd
    lo = c.old.ctr if lo is None else lo
    P = [lambda i: a.face[i].edge.obj, lambda i: a.face[i].orient.obj]
    big = lambda i: pd.face[i].nedges > 0
    return [('counts', FA(0, x, lambda i: a.face[i].nedges == pd.face[i].nedges, pats=P + [lambda i: a.face[i].nedges])),
            ('null', FA(0, x, lambda i: Imp(Not(big(i)), z3.And(a.face[i].edge.null, a.face[i].orient.null)), pats=P)),
            ('edge buffers', FA(0, x, lambda i: Imp(big(i), z3.And(a.face[i].edge.block(pd.face[i].nedges), a.face[i].edge.obj > lo, a.face[i].edge.obj <= mem.ctr)), pats=P)),
            ('orientation buffers', FA(0, x, lambda i: Imp(big(i), z3.And(a.face[i].orient.block(pd.face[i].nedges), a.face[i].orient.obj > lo, a.face[i].orient.obj <= mem.ctr)), pats=P)),
            ('apart', FA(0, x, lambda i: Imp(big(i), z3.And(above(a, a.face[i].edge.obj), above(a, a.face[i].orient.obj))), pats=P)),
            ('different', FA(0, x, lambda i: Imp(big(i), a.face[i].orient.obj != a.face[i].edge.obj), pats=P))]


def face_contents(c, a, x):
    pd = c.pd
    i, j = z3.Ints('cfi cfj')
    return z3.ForAll([i, j], Imp(z3.And(0 <= i, i < x, 0 <= j, j < pd.face[i].nedges), z3.And(a.face[i].edge[j] == pd.face[i].edge[j], a.face[i].orient[j] == pd.face[i].orient[j])),
                     patterns=[a.face[i].edge[j], a.face[i].orient[j]])


def face_order(a, x):
    i, k = z3.Ints('coi cok')
    E, O = (lambda q: a.face[q].edge), (lambda q: a.face[q].orient)
    mx = lambda p, q: z3.If(p > q, p, q)
    return z3.ForAll([i, k], Imp(z3.And(0 <= i, i < k, k < x, E(i).nonnull, E(k).nonnull),
                                 z3.And(E(i).obj < E(k).obj, E(i).obj < O(k).obj, O(i).obj < E(k).obj, O(i).obj < O(k).obj)),
                     patterns=[z3.MultiPattern(E(i).obj, E(k).obj), z3.MultiPattern(E(i).obj, O(k).obj), z3.MultiPattern(O(i).obj, E(k).obj), z3.MultiPattern(O(i).obj, O(k).obj)])


def faces_empty(a, x):
    return FA(x, a.MAXFACES, lambda i: z3.And(a.face[i].edge.null, a.face[i].orient.null, a.face[i].nedges == 0), pats=[lambda i: a.face[i].edge.obj, lambda i: a.face[i].orient.obj, lambda i: a.face[i].nedges])


def apart_comp_face(a, x):
    i, k = z3.Ints('coi cok')
    return z3.ForAll([i, k], Imp(z3.And(0 <= i, i < a.ncomps, 0 <= k, k < x, a.comp[i].edge.nonnull, a.face[k].edge.nonnull),
                                 z3.And(a.comp[i].edge.obj < a.face[k].edge.obj, a.comp[i].edge.obj < a.face[k].orient.obj)),
                     patterns=[z3.MultiPattern(a.comp[i].edge.obj, a.face[k].edge.obj), z3.MultiPattern(a.comp[i].edge.obj, a.face[k].orient.obj)])


def base5(a):
    return [a.obj, a.edge.obj, a.comp.obj, a.cross.obj, a.face.obj]


def same_edge(a, b, i):
    return z3.And(a.edge[i].head == b.edge[i].head, a.edge[i].headpos == b.edge[i].headpos, a.edge[i].tail == b.edge[i].tail, a.edge[i].tailpos == b.edge[i].tailpos)


def same_cross(a, b, i):
    return z3.And(*[a.cross[i].edge[k] == b.cross[i].edge[k] for k in range(4)] + [a.cross[i].sign == b.cross[i].sign])


def copy_post(c):
    a, pd = c.ret, c.pd
    return [('valid', z3.And(a.valid(), a.idx == 0))] + sizes(a, cap(newcap(c))) + arrays(c, a) + [
        ('counts', z3.And(a.ncross == pd.ncross, a.nedges == pd.nedges, a.ncomps == pd.ncomps, a.nfaces == pd.nfaces, a.uid == pd.uid)),
        ('hash', z3.And(*[a.hash[k] == pd.hash[k] for k in range(32)])),
        ('edges', FA(0, pd.nedges, lambda i: same_edge(a, pd, i))),
        ('crossings', FA(0, pd.ncross, lambda i: same_cross(a, pd, i))),
        ('component edges', comp_contents(c, a, pd.ncomps)),
        ('face edges', face_contents(c, a, pd.nfaces)),
        ('spare components empty', comps_empty(a, pd.ncomps)), ('spare faces empty', faces_empty(a, pd.nfaces)),
        ('component buffers separate', comp_order(a, pd.ncomps)), ('face buffers separate', face_order(a, pd.nfaces)), ('buffers separate', apart_comp_face(a, pd.nfaces))] + [('components: ' + l, f) for l, f in comps_parts(c, a, c.new, pd.ncomps)] + [('faces: ' + l, f) for l, f in faces_parts(c, a, c.new, pd.nfaces)]


def copy_inv(L):
    out = []
    c = L.c
    pd = c.pd
    cand = [o for o in L.objs if o.ct.k == 'struct' and o.ct.key() == c.pd.ct.key()]
    for a in cand[:1]:
        def compfacts(k, x):
            return [('comps %s %s' % (l, k), f) for l, f in comps_parts(c, a, L.cur, x)] + [('comp contents %s' % k, comp_contents(c, a, x)), ('comp order %s' % k, comp_order(a, x)), ('comps empty %s' % k, comps_empty(a, x))]

        def facefacts(k, x):
            return [('faces %s %s' % (l, k), f) for l, f in faces_parts(c, a, L.cur, x)] + [('face contents %s' % k, face_contents(c, a, x)), ('face order %s' % k, face_order(a, x)), ('faces empty %s' % k, faces_empty(a, x)),
                                                                                        ('separate %s' % k, apart_comp_face(a, x))]
        for k, x in L.ints:
            out += compfacts(k, x) + facefacts(k, x)
            out += [('edges %s' % k, FA(0, x, lambda i: same_edge(a, pd, i))), ('crossings %s' % k, FA(0, x, lambda i: same_cross(a, pd, i))),
                    ('hash %s' % k, z3.And(*[Imp(q < x, a.hash[q] == pd.hash[q]) for q in range(32)]))]
            for k2, y in L.outer:
                out += [('comp part %s %s' % (k, k2), FA(0, x, lambda j: a.comp[y].edge[j] == pd.comp[y].edge[j], pats=[lambda j: a.comp[y].edge[j]])),
                        ('face part %s %s' % (k, k2), FA(0, x, lambda j: z3.And(a.face[y].edge[j] == pd.face[y].edge[j], a.face[y].orient[j] == pd.face[y].orient[j]), pats=[lambda j: a.face[y].edge[j], lambda j: a.face[y].orient[j]]))]
        for k2, y in L.outer:
            out += compfacts('o%s' % k2, y) + facefacts('o%s' % k2, y)
        out += compfacts('all', pd.ncomps) + facefacts('all', pd.nfaces)
        out += [('edges all', FA(0, pd.nedges, lambda i: same_edge(a, pd, i))), ('crossings all', FA(0, pd.ncross, lambda i: same_cross(a, pd, i)))]
    return out


for fn, args in (('pd_copy_newsize', ['pd', 'MAXVERTS']), ('pd_copy', ['pd'])):
    C(fn, args, allocs=True, requires=copy_req, ensures=copy_post, inv=copy_inv, opts={'fresh_ret': True})
