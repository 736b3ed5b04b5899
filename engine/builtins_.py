"""Assumed behaviour of libc/GSL functions called by plcurve (the trusted base; listed in the evidence)."""
import z3
from vc import *
from ir import LT


def _alloc(eng, st, ins, nbytes, zero, elem=None, count=None):
    eng.res.assumptions.add('heap allocation succeeds (malloc/calloc/realloc never return NULL)')
    T = eng.infer_T(ins.res) if ins.res else None
    if T is not None and count is not None and elem == T.size:
        return eng.new_object(st, T, count, zero)
    return eng.new_object(st, T, None, zero, nbytes)


def b_malloc(eng, st, ins, a):
    st.regs[ins.res] = _alloc(eng, st, ins, a[0].us(), False)


def b_calloc(eng, st, ins, a):
    n, s = a[0].us(), a[1].us()
    T = eng.infer_T(ins.res) if ins.res else None
    ns, nn = num(s), num(n)
    if ns is None and nn is not None:
        n, s, ns = s, n, nn
    if T is not None and ns is not None and ns == T.size:
        st.regs[ins.res] = eng.new_object(st, T, n, True)
    else:
        st.regs[ins.res] = eng.new_object(st, T, None, True, n * s)


def b_realloc(eng, st, ins, a):
    p, n = a[0], a[1].us()
    T = p.T or eng.infer_T(ins.res)
    if T is None:
        raise Unsupported('realloc untyped')
    np = eng.new_object(st, T, None, False, n)
    if num(p.o) == 0:
        st.regs[ins.res] = np
        return
    eng.oblige(st, 'realloc of live block start', z3.Or(p.o == 0, z3.And(p.i == 0, z3.Not(z3.Select(eng.hget(st, FREED), p.o, z3.IntVal(0), z3.IntVal(0)) != 0))), ins.line)
    m = fresh('rn', I)
    eng.assume(m == z3.If(p.o == 0, 0, z3.If(cnt(p.o) < cnt(np.o), cnt(p.o), cnt(np.o))))
    for off, stride, count, lt in T.leaves():
        for kd in eng.kinds(T, off, lt):
            key = (T.key(), off, kd)
            h = eng.hget(st, key)
            i, j = z3.Ints('i j')
            s = z3.Select(h, np.o, i, j)
            eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m), s == z3.Select(h, p.o, i, j)), patterns=[s]))
    st.heap[FREED] = z3.If(p.o == 0, eng.hget(st, FREED), z3.Store(eng.hget(st, FREED), p.o, z3.IntVal(0), z3.IntVal(0), z3.IntVal(1)))
    st.ok = set()
    st.regs[ins.res] = np


def b_free(eng, st, ins, a):
    p = a[0]
    if num(p.o) == 0:
        return
    fr = z3.Select(eng.hget(st, FREED), p.o, z3.IntVal(0), z3.IntVal(0)) != 0
    eng.oblige(st, 'free of a live block start (or NULL)', z3.Or(p.o == 0, z3.And(p.i == 0, z3.Not(fr), p.o > 900)), ins.line)
    st.heap[FREED] = z3.Store(eng.hget(st, FREED), p.o, z3.IntVal(0), z3.IntVal(0), z3.IntVal(1))
    st.ok = set()


def b_assert_fail(eng, st, ins, a):
    if eng.con.abort is not None:
        c = Ctx(eng, eng.con, eng.argvals, eng.pcts, eng.entry_mem, Mem(eng, st.heap, st.ctr))
        eng.oblige(st, 'abort only when allowed', eng.con.abort(c), ins.line)
    else:
        eng.oblige(st, 'assert/exit unreachable', z3.BoolVal(False), ins.line)
    return 'dead'


def b_print(eng, st, ins, a):
    if ins.res and ins.ty.k == 'int':
        v = fresh('printret', I)
        eng.assume(z3.And(v >= -(1 << 31), v < (1 << 31)))
        st.regs[ins.res] = IV(v, ins.ty.n, True)
    elif ins.res:
        st.regs[ins.res] = eng.undef(ins.ty)


def mathb(k):
    def f(eng, st, ins, a):
        st.regs[ins.res] = eng.mathfn(st, k, a, ins)
    return f


def b_false(eng, st, ins, a):
    st.regs[ins.res] = BV1(z3.BoolVal(False))


BUILTINS = {'malloc': b_malloc, 'calloc': b_calloc, 'realloc': b_realloc, 'free': b_free, '__assert_fail': b_assert_fail, 'exit': b_assert_fail,
            'abort': b_assert_fail, 'pd_error': b_false}
for n in ('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'perror', 'putc', 'fwrite', 'vfprintf', 'pd_printf', 'pd_fprintf', 'pd_write', 'pd_write_c'):
    BUILTINS[n] = b_print
for n in ('sqrt', 'fmax', 'fmin', 'sin', 'cos', 'fabs', 'floor', 'ceil', 'log', 'exp', 'pow', 'log2', 'tan', 'acos', 'asin', 'atan', 'atan2', 'fmod'):
    BUILTINS[n] = mathb(n)


def b_memcpy(eng, st, ins, a):
    eng.do_memcpy(st, ins, a[0], a[1], a[2])
    if ins.res:
        st.regs[ins.res] = a[0]


def b_memset(eng, st, ins, a):
    eng.do_memset(st, ins, a[0], a[1], a[2])
    if ins.res:
        st.regs[ins.res] = a[0]


BUILTINS['memcpy'] = b_memcpy
BUILTINS['memmove'] = b_memcpy
BUILTINS['memset'] = b_memset
TRUSTED = {
    'malloc/calloc/realloc/free': 'C allocator semantics; allocation always succeeds',
    'printf family': 'no effect on program-visible memory',
    'pd_error (PD_VERBOSE=0)': 'returns false with no other effect',
    'sqrt/sin/cos/fabs/floor/ceil': 'exact real functions (sqrt(x)>=0, sqrt(x)^2=x; sin^2+cos^2=1)',
}


def _cstring(eng, ins, k):
    """the bytes of a constant string argument, or None"""
    a = ins.a[k][1]
    if a[0] != 'glob':
        return None
    g = eng.mod.globals.get(a[1])
    if g is None or g[2] is None or g[2][0] != 'cstr':
        return None
    t = g[2][1]
    if isinstance(t, str):
        t = t.strip('"').encode('latin1')
        import re as _re
        t = _re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), t)
    return t.split(b'\0')[0]


def _store_str(eng, st, ins, d, s):
    for k, ch in enumerate(list(s) + [0]):
        eng.do_store(st, eng.ptr_add(d, LT('int', n=8), 1, z3.IntVal(k)), LT('int', n=8), IV(z3.IntVal(ch if ch < 128 else ch - 256), 8, True), ins)


def b_sprintf(eng, st, ins, a):
    fmtk = 1
    s = _cstring(eng, ins, fmtk)
    if s is None or b'%' in s:
        raise Unsupported('sprintf with conversions')
    _store_str(eng, st, ins, a[0], s)
    if ins.res:
        st.regs[ins.res] = IV(z3.IntVal(len(s)), ins.ty.n, True)


def b_strcpy(eng, st, ins, a):
    s = _cstring(eng, ins, 1)
    if s is None:
        raise Unsupported('strcpy of a computed string')
    _store_str(eng, st, ins, a[0], s)
    if ins.res:
        st.regs[ins.res] = a[0]


BUILTINS['sprintf'] = b_sprintf
BUILTINS['strcpy'] = b_strcpy


def b_qsort(eng, st, ins, a):
    """the elements are permuted; no element comes after one that the comparator's (proved) contract puts behind it"""
    d, n, sz, cmp = a
    T = d.T
    if T is None or d.off or d.dyn or num(sz.us()) != T.size or not isinstance(cmp, FV):
        raise Unsupported('qsort shape')
    con = eng.contracts.get(cmp.name)
    nn = simp(n.us())
    eng.range_ok(st, d, nn, ins)
    eng.res.assumptions.add('qsort(%s) permutes the elements into an order that agrees with the comparator' % cmp.name)
    k = len(QS)
    QS.append(1)
    eng.qsorts = getattr(eng, 'qsorts', [])
    Pm, Qm = z3.Function('perm!%d' % k, I, I), z3.Function('inv!%d' % k, I, I)
    eng.qsorts.append((Pm, Qm, nn))
    x, y = z3.Ints('qx qy')
    rng = lambda v: z3.And(v >= 0, v < nn)
    eng.assume(z3.ForAll([x], z3.Implies(rng(x), z3.And(rng(Pm(x)), Qm(Pm(x)) == x)), patterns=[Pm(x)]))
    eng.assume(z3.ForAll([x], z3.Implies(rng(x), z3.And(rng(Qm(x)), Pm(Qm(x)) == x)), patterns=[Qm(x)]))
    if con is not None and con.requires is not None:
        # the comparator's preconditions hold for all pairs of elements
        mem = Mem(eng, st.heap, st.ctr)
        A, B = PV(d.o, simp(d.i + x), T), PV(d.o, simp(d.i + y), T)
        cx = Ctx(eng, con, [A, B], [None, None], mem, mem)
        rq = con.requires(cx)
        rq = [f[1] if isinstance(f, tuple) else f for f in rq]
        eng.oblige(st, 'elements meet the preconditions of %s' % cmp.name, z3.ForAll([x, y], z3.Implies(z3.And(rng(x), rng(y)), z3.And(*rq))), ins.line)
    for off, stride, count, lt in T.leaves():
        for kd in eng.kinds(T, off, lt):
            key = (T.key(), off, kd)
            h = eng.hget(st, key)
            h2 = fresh('H:%s:%d:%s' % key, hsort(kd))
            o, i, j = z3.Ints('o i j')
            sel = z3.Select(h2, o, i, j)
            inr = z3.And(o == d.o, i >= d.i, i < d.i + nn)
            eng.assume(z3.ForAll([o, i, j], z3.Implies(z3.Not(inr), sel == z3.Select(h, o, i, j)), patterns=[sel]))
            s2 = z3.Select(h2, d.o, i, j)
            eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= d.i, i < d.i + nn), s2 == z3.Select(h, d.o, simp(d.i + Pm(simp(i - d.i))), j)), patterns=[s2]))
            s1 = z3.Select(h, d.o, i, j)
            eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= d.i, i < d.i + nn), s1 == z3.Select(h2, d.o, simp(d.i + Qm(simp(i - d.i))), j)), patterns=[s1]))
            st.heap[key] = h2
    if con is not None and con.opts.get('order'):
        mem = Mem(eng, st.heap, st.ctr)
        A, B = RefView(mem, PV(d.o, simp(d.i + x), T), T), RefView(mem, PV(d.o, simp(d.i + y), T), T)
        off, stride, count, lt = T.leaves()[0]
        h = eng.hget(st, (T.key(), off, eng.kinds(T, off, lt)[0]))
        pt = z3.MultiPattern(z3.Select(h, d.o, simp(d.i + x), z3.IntVal(0)), z3.Select(h, d.o, simp(d.i + y), z3.IntVal(0)))
        eng.assume(z3.ForAll([x, y], z3.Implies(z3.And(rng(x), rng(y), x < y), con.opts['order'](A, B)), patterns=[pt]))


QS = []
BUILTINS['qsort'] = b_qsort
TRUSTED['qsort'] = 'permutes the elements into an order that agrees with the comparator'


def b_calloc_or_die(eng, st, ins, a):
    """calloc_or_die_internal(n, size, file, line, log): calloc, or the process ends"""
    b_calloc(eng, st, ins, a[:2])


BUILTINS['calloc_or_die_internal'] = b_calloc_or_die
TRUSTED['calloc_or_die_internal'] = 'calloc, or the process ends'


def b_bsearch(eng, st, ins, a):
    """NULL or a pointer to an element; with a comparator under contract: the element found equals the key, and on a
    sorted array NULL means that no element equals the key"""
    key, d, n, sz, cmp = a
    T = d.T
    if T is None or d.off or d.dyn or num(sz.us()) != T.size or not isinstance(cmp, FV):
        raise Unsupported('bsearch shape')
    con = eng.contracts.get(cmp.name)
    nn = simp(n.us())
    eng.range_ok(st, d, nn, ins)
    eng.res.assumptions.add('bsearch(%s) finds an equal element of a sorted array if there is one' % cmp.name)
    k = fresh('found', I)
    f = fresh('hit', z3.BoolSort())
    eng.assume(z3.And(z3.Implies(f, z3.And(k >= 0, k < nn))))
    st.regs[ins.res] = PV(z3.If(f, d.o, z3.IntVal(0)), simp(z3.If(f, d.i + k, z3.IntVal(0))), T)
    if con is not None and con.opts.get('order'):
        mem = Mem(eng, st.heap, st.ctr)
        x, y = z3.Ints('bx by')
        R = lambda q: RefView(mem, PV(d.o, simp(d.i + q), T), T)
        K = RefView(mem, PV(key.o, key.i, key.T or T, key.off, key.dyn), T)
        order, equal = con.opts['order'], con.opts['equal']
        srt = z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < nn), order(R(x), R(y))))
        s = fresh('sorted', z3.BoolSort())
        eng.oblige(st, 'the array searched by bsearch is sorted', srt, ins.line)
        eng.assume(z3.Implies(f, equal(R(k), K)))
        eng.assume(z3.Implies(z3.Not(f), z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < nn), z3.Not(equal(R(x), K))))))


BUILTINS['bsearch'] = b_bsearch
TRUSTED['bsearch'] = 'finds an equal element of a sorted array if there is one'
