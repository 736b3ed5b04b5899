"""Deductive verifier: symbolic execution of LLVM IR between cut points, with contracts.

  * every function with a contract is verified against it, modularly: calls to functions that have a
    contract are replaced by (assert pre; havoc frame; assume post);
  * every loop is cut at its header; invariants are the greatest inductive subset (Houdini) of a set of
    candidate templates, so no invariant is ever assumed that was not proved;
  * memory is typed: a location is (element type, field, object, index, inner index).
"""
import z3, time, re, sys
from fractions import Fraction
from ir import LT, CT, Types
sys.setrecursionlimit(20000)

I = z3.IntSort()
R = z3.RealSort()
INT3 = z3.ArraySort(I, I, I, I)
REAL3 = z3.ArraySort(I, I, I, R)
cnt = z3.Function('cnt', I, I)
umod = z3.Function('umod', I, I, I)
udivf = z3.Function('udivf', I, I, I)
bitf = z3.Function('bit', I, I, z3.BoolSort())
z3.AstRef.__del__ = lambda self: None      # terms stay alive: caches are keyed by term number, which must not be reused
FREED = ('$freed', 0, 'int')


_mp = z3.MultiPattern


def _multipattern(*a):
    """z3py drops its references to the terms before it builds the pattern: keep them alive here"""
    return _mp(*a)


z3.MultiPattern = _multipattern
_fa = z3.ForAll


def _forall(vs, body, *a, **k):
    """a pattern the solver does not accept (it contains a conditional) is left out"""
    try:
        return _fa(vs, body, *a, **k)
    except z3.Z3Exception:
        k.pop('patterns', None)
        return _fa(vs, body, *a, **k)


z3.ForAll = _forall


def num(x):
    if z3.is_int_value(x):
        return x.as_long()
    return None


def And(*a):
    a = [x for x in a if not (z3.is_bool(x) and z3.is_true(x))] if all(not isinstance(x, bool) for x in a) else [z3.BoolVal(x) if isinstance(x, bool) else x for x in a]
    return z3.And(*a) if len(a) != 1 else a[0]


class Unsupported(Exception):
    pass


class Timeout(Exception):
    pass


# ------------------------------------------------------------------ values
class IV:
    __slots__ = ('t', 'b', 's', 'nn', 'pc', 'un')

    def __init__(self, t, b, s, nn=False, pc=None, un=False):
        self.pc = pc        # optional list of (bit offset, width, IV): value = sum piece<<offset
        self.un = un
        if isinstance(t, int):
            t = z3.IntVal(t)
        self.t, self.b, self.s, self.nn = t, b, s, nn
        n = num(t)
        if n is not None and 0 <= n < (1 << (b - 1)):
            self.nn = True

    def sg(self):
        if self.s or self.nn:
            return self.t
        n = num(self.t)
        if n is not None:
            return z3.IntVal(n - (1 << self.b) if n >= 1 << (self.b - 1) else n)
        return z3.If(self.t >= (1 << (self.b - 1)), self.t - (1 << self.b), self.t)

    def us(self):
        if not self.s or self.nn:
            return self.t
        n = num(self.t)
        if n is not None:
            return z3.IntVal(n + (1 << self.b) if n < 0 else n)
        return z3.If(self.t < 0, self.t + (1 << self.b), self.t)

    def as_(self, signed):
        return self.sg() if signed else self.us()


def pieces(v):
    if v.pc is not None:
        return v.pc
    n = num(v.t)
    if n == 0:
        return []
    return [(0, v.b, v)]


def from_pieces(pc, bits):
    pc = sorted(pc, key=lambda x: x[0])
    if not pc:
        return IV(0, bits, False)
    if len(pc) == 1 and pc[0][0] == 0 and pc[0][1] == bits:
        return pc[0][2]
    t = z3.IntVal(0)
    for off, w, v in pc:
        t = t + v.us() * (1 << off)
    return IV(simp(t), bits, False, max(off + w for off, w, _ in pc) < bits, pc)


def piece_op(op, a, b, n):
    """shifts/masks/ors on values assembled from byte-aligned pieces; None if not applicable"""
    if op in ('lshr', 'shl'):
        k = num(b.us())
        if k is None or a.pc is None:
            return None
        out = []
        for off, w, v in a.pc:
            o2 = off - k if op == 'lshr' else off + k
            if o2 + w <= 0 or o2 >= n:
                continue
            if o2 < 0 or o2 + w > n:
                return None
            out.append((o2, w, v))
        return from_pieces(out, n)
    if op == 'and':
        m = num(b.us())
        if m is None:
            a, b = b, a
            m = num(b.us())
        if m is None or n < 64:
            return None
        if a.un and m == 0xffffffff:
            t = fresh('undef', I)
            return from_pieces([(0, 32, IV(z3.If(z3.And(t >= 0, t < (1 << 32)), t, 0), 32, False))], n)
        if a.pc is None:
            return None
        out = []
        for off, w, v in a.pc:
            mm = (m >> off) & ((1 << w) - 1)
            if mm == (1 << w) - 1:
                out.append((off, w, v))
            elif mm != 0:
                return None
        return from_pieces(out, n)
    if op == 'or':
        if n < 64:
            return None
        pa, pb = pieces(a), pieces(b)
        if a.pc is None and b.pc is None:
            return None
        occ = sorted([(o, w) for o, w, _ in pa + pb])
        for (o1, w1), (o2, w2) in zip(occ, occ[1:]):
            if o1 + w1 > o2:
                return None
        return from_pieces(pa + pb, n)
    return None


class BV1:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class RV:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class PV:
    """pointer: object, index (in elements of T), byte offset in the element (const + sum stride*term)"""
    __slots__ = ('o', 'i', 'T', 'off', 'dyn')

    def __init__(self, o, i, T, off=0, dyn=()):
        self.o, self.i, self.T, self.off, self.dyn = o, i, T, off, tuple(dyn)


class AV:
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = els


class FV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class UV:
    pass


NULLP = lambda T=None: PV(z3.IntVal(0), z3.IntVal(0), T)

FRESH = [0]


def fresh(name, sort):
    FRESH[0] += 1
    return z3.Const('%s!%d' % (name, FRESH[0]), sort)


# pointer members whose values may point inside their block (declared by contracts: (struct, member))
FULLNAMES = {('plc_strand_type', 'vt'), ('plc_strand', 'vt')}
FULLPTR = set()


def hsort(kind):
    return REAL3 if kind == 'real' else INT3


def base_heap(key):
    return z3.Const('H0:%s:%d:%s' % key, hsort(key[2]))


def mrd(arr, o, i, j):
    """select with syntactic store-chain simplification"""
    a = arr
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        so, si, sj = a.arg(1), a.arg(2), a.arg(3)
        if so.eq(o) and si.eq(i) and sj.eq(j):
            return a.arg(4)

        def diff(x, y):
            nx, ny = num(x), num(y)
            return nx is not None and ny is not None and nx != ny
        if diff(so, o) or (so.eq(o) and (diff(si, i) or (si.eq(i) and diff(sj, j)))) or distinct_obj(so, o) or diff(sj, j) or \
                (diff(si, i)):
            a = a.arg(0)
            continue
        break
    return z3.Select(a, o, i, j)


OBJRANK = {}     # ast id -> rank, for objects allocated in this verification (pairwise distinct)


def distinct_obj(a, b):
    if a.eq(b):
        return False
    ra, rb = OBJRANK.get(a.get_id()), OBJRANK.get(b.get_id())
    return ra is not None and rb is not None and ra[0] != rb[0]


class State:
    __slots__ = ('regs', 'heap', 'ctr', 'pred', 'ok', 'zero', 'trail', 'ghost', 'path')

    def __init__(self):
        self.regs = {}
        self.heap = {}
        self.ctr = None
        self.ok = set()
        self.zero = []
        self.trail = ()
        self.ghost = {}
        self.path = ()

    def clone(self):
        s = State()
        s.regs = dict(self.regs)
        s.heap = dict(self.heap)
        s.ctr = self.ctr
        s.ok = set(self.ok)
        s.zero = list(self.zero)
        s.trail = self.trail
        s.ghost = dict(self.ghost)
        s.path = self.path
        return s


# ------------------------------------------------------------------ memory views for contracts
class Mem:
    def __init__(self, eng, heap, ctr):
        self.eng, self.heap, self.ctr = eng, heap, ctr

    def arr(self, key):
        h = self.heap.get(key)
        return h if h is not None else self.eng.base(key)

    def load(self, pv, ct):
        key, o, i, j = self.eng.resolve(pv, ct)
        if ct.k == 'ptr':
            ix = mrd(self.arr((key[0], key[1], 'pidx')), o, i, j) if (key[0], key[1]) in FULLPTR else z3.IntVal(0)
            return PtrView(self, PV(mrd(self.arr((key[0], key[1], 'pobj')), o, i, j), ix, ct.el), ct.el)
        return mrd(self.arr(key), o, i, j)

    def freed(self, o):
        return z3.Select(self.arr(FREED), o, z3.IntVal(0), z3.IntVal(0)) != 0

    def __call__(self, p):
        """rebind a pointer/ref view to this memory"""
        if isinstance(p, PtrView):
            return PtrView(self, p.pv, p.ct)
        if isinstance(p, RefView):
            return RefView(self, p.pv, p.ct)
        raise TypeError(p)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class PtrView:
    """C pointer value seen in a memory"""
    def __init__(self, mem, pv, ct):
        self.__dict__['mem'], self.__dict__['pv'], self.__dict__['ct'] = mem, pv, ct

    @property
    def obj(self):
        return self.pv.o

    @property
    def idx(self):
        return self.pv.i

    @property
    def null(self):
        return self.pv.o == 0

    @property
    def nonnull(self):
        return self.pv.o != 0

    @property
    def freed(self):
        return self.mem.freed(self.pv.o)

    def same(self, q):
        return z3.And(self.pv.o == q.pv.o, self.pv.i == q.pv.i)

    def elem(self, k):
        return RefView(self.mem, self.mem.eng.pv_index(self.pv, self.ct, zi(k)), self.ct)

    def __getitem__(self, k):
        r = self.elem(k)
        return r.value()

    def __getattr__(self, nm):
        return getattr(self.elem(0), nm)

    def valid(self, n=1):
        """non-null, live, at least n elements available from here"""
        return z3.And(self.pv.o > 0, self.pv.o <= self.mem.ctr, self.pv.i >= 0, self.pv.i + zi(n) <= cnt(self.pv.o), z3.Not(self.freed))

    def block(self, n):
        """valid and the start of its allocation"""
        return z3.And(self.valid(n), self.pv.i == 0)


class RefView:
    def __init__(self, mem, pv, ct):
        self.__dict__['mem'], self.__dict__['pv'], self.__dict__['ct'] = mem, pv, ct

    def value(self):
        if self.ct.k in ('struct', 'arr'):
            return self
        return self.mem.load(self.pv, self.ct)

    def __getattr__(self, nm):
        if self.ct.k == 'struct':
            for n, off, ct in self.ct.members:
                if n == nm:
                    return RefView(self.mem, PV(self.pv.o, self.pv.i, self.pv.T, self.pv.off + off, self.pv.dyn), ct).value()
        raise AttributeError(nm)

    def ref(self, nm):
        """reference (not value) to a member"""
        for n, off, ct in self.ct.members:
            if n == nm:
                return RefView(self.mem, PV(self.pv.o, self.pv.i, self.pv.T, self.pv.off + off, self.pv.dyn), ct)
        raise AttributeError(nm)

    def elemref(self, k):
        assert self.ct.k == 'arr'
        return RefView(self.mem, self.mem.eng.pv_inner(self.pv, self.ct.el, zi(k)), self.ct.el)

    def __getitem__(self, k):
        return self.elemref(k).value()

    def addr(self):
        return PtrView(self.mem, self.pv, self.ct)


# ------------------------------------------------------------------ quantifier helper
QN = [0]


def legal_pattern(p):
    """no connectives or conditionals, no array updates"""
    if not z3.is_app(p):
        return True
    if p.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE) or (z3.is_bool(p) and p.num_args()):
        return False
    return all(legal_pattern(x) for x in p.children())


def FA(lo, hi, fn, pats=None):
    """forall k in [lo,hi). fn(k);  keeps structure so loop templates can be derived"""
    QN[0] += 1
    k = z3.Int('q%d' % QN[0])
    body = fn(k)
    if pats:
        ps = [p for p in (p(k) for p in pats) if legal_pattern(p)]
        q = z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k < zi(hi)), body), **({'patterns': ps} if ps else {}))
    else:
        q = z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k < zi(hi)), body))
    q._fa = (lo, hi, fn, pats)
    return q


def FA2(n, fn):
    """forall over n integer variables (fn returns formula)"""
    vs = []
    for _ in range(n):
        QN[0] += 1
        vs.append(z3.Int('q%d' % QN[0]))
    return z3.ForAll(vs, fn(*vs))


def EX(lo, hi, fn):
    QN[0] += 1
    k = z3.Int('e%d' % QN[0])
    return z3.Exists([k], z3.And(zi(lo) <= k, k < zi(hi), fn(k)))


# ------------------------------------------------------------------ contracts
class Contract:
    """fields:
       requires(c) -> list of formulas           (c.old = memory at entry, c.<arg>)
       ensures(c)  -> list of (label, formula)   (c.new memory, c.ret)
       modifies(c) -> list of regions (c.ref(...), c.obj(...), ...)
       inv(L)      -> list of (label, formula)   loop-invariant candidates
       allocs, assumed (not verified, trusted), abort(c) -> condition under which abort/assert is allowed"""
    def __init__(self, name, args, requires=None, ensures=None, modifies=None, inv=None, allocs=False, assumed=False,
                 abort=None, overflow=True, opts=None, ret=None, props=(), split=None, timeout=None, argtypes=None, frees=None,
                 hook=None, prop=None, defs=None, internal=False):
        self.defs = defs                    # defs(c): definitions of ghost functions, assumed when verifying (not by callers)
        self.internal = internal            # not part of the public interface: absent after a refactoring is no violation
        self.name, self.args = name, args
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies or (lambda c: [])
        self.inv = inv
        self.allocs, self.assumed, self.abort, self.overflow = allocs, assumed, abort, overflow
        self.opts = opts or {}
        self.ret = ret
        self.timeout = timeout
        self.argtypes = argtypes
        self.frees = frees
        self.split = split
        self.hook = hook


class Ctx:
    """environment handed to contract functions"""
    def __init__(self, eng, contract, vals, types, old, new, ret=None, retct=None):
        self.eng, self.contract, self.old, self.new = eng, contract, old, new
        self._vals, self._types = vals, types
        self.ret_v, self._retct = ret, retct

    def _wrap(self, v, ct, mem):
        if isinstance(v, PV):
            if ct is not None and ct.k == 'ptr':
                return PtrView(mem, v, ct.el if ct.el.k != 'void' else (v.T or ct.el))
            if ct is not None and ct.k == 'struct':
                return RefView(mem, PV(v.o, v.i, v.T or ct, v.off, v.dyn), ct)
            return PtrView(mem, v, v.T)
        if isinstance(v, IV):
            if ct is not None and ct.k == 'int':
                if ct.isbool:
                    return v.us() != 0 if not z3.is_bool(v.t) else v.t
                return v.as_(ct.signed)
            return v.t
        if isinstance(v, BV1):
            return v.t if (ct is None or ct.isbool) else z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, RV):
            return v.t
        return v

    def arg(self, k, mem=None):
        if isinstance(k, str):
            k = self.contract.args.index(k)
        return self._wrap(self._vals[k], self._types[k], mem or self.old)

    def __getattr__(self, nm):
        if nm.startswith('_'):
            raise AttributeError(nm)
        if nm in self.contract.args:
            return self.arg(nm)
        if nm.endswith('_') and nm[:-1] in self.contract.args:     # view in the new memory
            return self.arg(nm[:-1], self.new)
        raise AttributeError(nm)

    @property
    def ret(self):
        if self.ret_v is None:
            raise NoRet()
        return self._wrap(self.ret_v, self._retct, self.new)

    def fresh_obj(self, p):
        return z3.And(p.pv.o > self.old.ctr, p.pv.o <= self.new.ctr)


class NoRet(Exception):
    pass


class LoopCtx:
    pass


# region constructors: (kind, payload)
def Ref(r):
    return ('ref', r)


def Obj(p):
    """everything in the object p points into"""
    return ('obj', p)


def Rng(p, lo, hi):
    return ('rng', p, zi(lo), zi(hi))


def RngF(p, lo, hi, *fields):
    """only the named fields of elements lo..hi of a struct array"""
    return ('rngf', p, zi(lo), zi(hi), fields)


def Pred(ctkey_pred):
    """('pred', fn(key)-> None | predicate(o,i,j))"""
    return ('pred', ctkey_pred)


# ------------------------------------------------------------------ the engine
class Result:
    def __init__(self, fn):
        self.fn = fn
        self.obligations = 0
        self.discharged = 0
        self.failed = []      # (label, line, why)
        self.solver_s = 0.0
        self.queries = 0
        self.backends = {}
        self.loops = {}
        self.paths = 0
        self.exits = 0
        self.vacuous = False
        self.error = None
        self.wall = 0.0
        self.assumptions = set()
        self.hints = {}
        self.calls = set()
        self.missing = False


class Engine:
    def __init__(self, mod, types, contracts, builtins, cfg=None):
        self.mod, self.types, self.contracts, self.builtins = mod, types, contracts, builtins
        self.cfg = cfg or {}
        self.qto = self.cfg.get('qto', 4000)
        self.hto = self.cfg.get('hto', 1500)
        self.bases = {}
        self.gobj = {}
        self.strobjs = 0
        self.hints = self.cfg.get('hints', {})
        self.axioms = []
        self.type_memo = {}

    # -------------------------------------------------- heaps
    def base(self, key):
        h = self.bases.get(key)
        if h is None:
            h = base_heap(key)
            self.bases[key] = h
            self.heap_axioms(h, key, self.ctr0)
        return h

    def key_range(self, key):
        if key[2] != 'int':
            return None
        return self.ranges.get(key)

    def heap_axioms(self, h, key, ctr):
        o, i, j = z3.Ints('o i j')
        s = z3.Select(h, o, i, j)
        if key[2] == 'int':
            r = self.key_range(key)
            if r:
                self.assume_global(z3.ForAll([o, i, j], z3.And(r[0] <= s, s <= r[1]), patterns=[s]))
        elif key[2] == 'pobj' and ctr is not None:
            self.assume_global(z3.ForAll([o, i, j], z3.Implies(z3.And(o > 0, o <= ctr), z3.And(0 <= s, s <= ctr)), patterns=[s]))

    def ma(self, f):
        return f if self._ma is None or isinstance(f, bool) else self._ma(f)

    def assume_global(self, f):
        """facts about freshly named constants: valid on every path"""
        self.S.add(self.ma(f))
        self.F.append(f)
        self.globalF.append(f)

    def hget(self, st, key):
        h = st.heap.get(key)
        return h if h is not None else self.base(key)

    # -------------------------------------------------- solver stack
    def push(self):
        self.S.push()
        self.marks.append((len(self.F)))

    def pop(self):
        self.S.pop()
        m = self.marks.pop()
        # global facts introduced inside must survive: re-add
        lost = [f for f in self.F[m:]]
        del self.F[m:]
        for f in lost:
            if f.get_id() in self.gids:
                self.S.add(self.ma(f))
                self.F.append(f)

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.S.add(self.ma(f))
        self.F.append(f)

    @property
    def gids(self):
        return self._gids

    def check_time(self):
        if time.time() > self.deadline:
            raise Timeout()

    def prove(self, goal, to=None, hard=False):
        """True iff facts |= goal"""
        self.check_time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(goal):
            return True
        t0 = time.time()
        self.res.queries += 1
        self.S.push()
        try:
            if to is None and hard and (real_eq(goal) or (is_real_problem(goal) and not has_quant(goal))):
                to = 600          # the arithmetic back ends are tried next
            # limited by work, not by the clock: the same answer on a busy machine (about 2000 units per millisecond)
            self.S.set('rlimit', int(to or self.qto) * 5000)
            self.S.set('timeout', int(to or self.qto) * 4)
            self.S.add(z3.Not(self.ma(goal)))
            r = self.S.check()
            if r == z3.sat:
                self.last_model = None
                try:
                    self.last_model = self.S.model()
                except z3.Z3Exception:
                    pass
        finally:
            self.S.pop()
        dt = time.time() - t0
        if self.cfg.get('slow') and dt > self.cfg['slow']:
            print('   slow %.2fs %s %s' % (dt, r, str(goal)[:200].replace('\n', ' ')), flush=True)
        self.res.solver_s += dt
        if r == z3.unsat:
            self.res.backends['z3'] = self.res.backends.get('z3', 0) + 1
            return True
        if hard:
            r2 = self.prove_all_terms(goal, self.qto) or self.prove_fresh(goal)
            self.res.solver_s += time.time() - t0 - dt
            return r2
        return False

    def prove_all_terms(self, goal, to):
        """second attempt: a fresh solver which instantiates with every term, not only the relevant ones"""
        if not has_quant(goal) and not any(has_quant(f) for f in self.F):
            return False
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('smt.mbqi', False)
        s.set('smt.relevancy', 0)
        s.set('smt.random_seed', 7)
        s.set('rlimit', int(to) * 5000)
        s.set('timeout', int(to) * 4)
        s.add(*[self.ma(f) for f in self.F])
        if self._ma:
            s.add(*MulAbs.axioms())
        s.add(z3.Not(self.ma(goal)))
        r = s.check()
        self.res.solver_s += time.time() - t0
        if self.cfg.get('slow') and time.time() - t0 > self.cfg['slow']:
            print('   slow2 %.2fs %s %s' % (time.time() - t0, r, str(goal)[:200].replace('\n', ' ')), flush=True)
        if r == z3.unsat:
            self.res.backends['z3'] = self.res.backends.get('z3', 0) + 1
            return True
        return False

    def second(self, lkey, l, goal):
        if not (self.con.opts.get('second') or self.cfg.get('scale', 1) > 1) or not l.startswith('U ') or self._second.get((lkey, l), 0) >= 2:
            return False
        if self.prove_all_terms(goal, self.hto / 6):
            return True
        self._second[(lkey, l)] = self._second.get((lkey, l), 0) + 1
        return False

    def prove_fresh(self, goal):
        """second attempts on hard goals: fresh solver with mbqi; nlsat for pure real goals; cvc5"""
        facts = list(self.F)
        hasq = any(has_quant(f) for f in facts) or has_quant(goal)
        qf = [f for f in facts if not has_quant(f)]
        if not has_quant(goal) and is_real_problem(goal) and self.prove_real(qf, goal):
            return True
        # 1. quantifier-free slice with default (tactic) solver
        if not has_quant(goal):
            for fs in relevant_slices(qf, goal):
                s = z3.Solver()
                s.set('timeout', int(self.qto))
                s.add(*fs)
                s.add(z3.Not(goal))
                if s.check() == z3.unsat:
                    self.res.backends['z3-tactic'] = self.res.backends.get('z3-tactic', 0) + 1
                    return True
                if is_real_problem(goal):
                    s = z3.Tactic('qfnra-nlsat').solver()
                    s.set('timeout', int(self.qto))
                    try:
                        pfs = [f for f in fs if real_only(f)]
                        s.add(*pfs)
                        s.add(z3.Not(goal))
                        if s.check() == z3.unsat:
                            self.res.backends['z3-nlsat'] = self.res.backends.get('z3-nlsat', 0) + 1
                            return True
                    except z3.Z3Exception:
                        pass
        facts = [self.ma(f) for f in facts] + (MulAbs.axioms() if self._ma else [])
        goal = self.ma(goal)
        s = z3.Solver()
        s.set('timeout', int(self.qto * 2))
        s.add(*facts)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            self.res.backends['z3'] = self.res.backends.get('z3', 0) + 1
            return True
        if self.cfg.get('cvc5', True):
            import subprocess, tempfile
            s2 = z3.Solver()
            s2.add(*facts)
            s2.add(z3.Not(goal))
            txt = '(set-logic ALL)\n' + s2.to_smt2()
            try:
                r = subprocess.run(['cvc5', '--tlimit=%d' % (self.qto * 2), '-'], input=txt, capture_output=True, text=True,
                                   timeout=self.qto / 1000 * 2 + 5)
                if r.stdout.strip().startswith('unsat'):
                    self.res.backends['cvc5'] = self.res.backends.get('cvc5', 0) + 1
                    return True
            except Exception:
                pass
        return False

    def prove_real(self, qf, goal):
        """arithmetic over the reals with everything else abstracted: reads, calls and non-real atoms become unknowns"""
        ab = RealAbs()
        if not hasattr(self, '_imp'):
            self._imp = {}
        todo = list(qf)
        if z3.is_implies(goal):
            a = goal.arg(0)
        else:
            a = None
        qf = list(qf)
        while todo:      # consequents of implications whose condition holds here
            f = todo.pop()
            if z3.is_and(f):
                todo += f.children()
                qf += f.children()
                continue
            if not z3.is_implies(f) or not is_real_problem(f.arg(1)):
                continue
            k = (f.get_id(), a.get_id() if a is not None else 0, len(self.F))
            if k not in self._imp:
                self._imp[k] = (self.prove(f.arg(0) if a is None else z3.Implies(a, f.arg(0)), to=400), f, a)
            if self._imp[k][0]:
                todo.append(f.arg(1))
                qf.append(f.arg(1))
        hyp = [ab(f) for f in qf if is_real_problem(f) or not has_arr(f)]
        hyp = [h for h in hyp if not z3.is_true(h)]
        g = ab(goal)
        while z3.is_implies(g):
            hyp.append(g.arg(0))
            g = g.arg(1)
        hs = []
        for h in hyp:
            hs += list(h.children()) if z3.is_and(h) else [h]
        gs = list(g.children()) if z3.is_and(g) else [g]
        if self.cfg.get('dumpreal'):
            print('REAL', [str(h)[:300] for h in hs], '|-', gs, flush=True)
        gs = [g for g in gs if not self.prove_ring(hs, g)]
        if gs:
            import ring
            try:
                cn = ring.Canon(hs)
                gs2 = [cn(g) for g in gs]
                hs2 = [cn(h) for h in hs] + [h for h in hs if z3.is_eq(h)]
                gs = [g for g, g2 in zip(gs, gs2) if not self.canon_ok(hs2, g2)]
            except ring.No:
                pass
        for g in gs:
            done = False
            for fs in relevant_slices(hs, g):
                for mk in (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'qfnra-nlsat').solver(), lambda: z3.SolverFor('QF_NRA')):
                    s = mk()
                    s.set('timeout', int(self.qto))
                    try:
                        s.add(*fs)
                        s.add(z3.Not(g))
                        if s.check() == z3.unsat:
                            done = True
                            break
                    except z3.Z3Exception:
                        pass
                if done:
                    break
            if not done:
                return False
        self.res.backends['z3-nlsat'] = self.res.backends.get('z3-nlsat', 0) + 1
        return True

    def prove_ring(self, hs, g):
        import ring
        if not (z3.is_eq(g) and g.arg(0).sort() == R):
            return False
        fs = []
        for h in hs:
            if z3.is_implies(h) and z3.is_and(h.arg(1)) and any(z3.is_eq(x) and z3.is_mul(x.arg(0)) for x in h.arg(1).children()):   # sqrt: x >= 0 -> s >= 0 and s*s == x
                if self.quick_real(hs, h.arg(0)):
                    fs += h.arg(1).children()
            else:
                fs.append(h)
        ok, dens = ring.identity(fs, g)
        if not ok:
            return False
        for d in dens:
            if not self.quick_real(fs, d != 0):
                return False
        self.res.backends['ring'] = self.res.backends.get('ring', 0) + 1
        return True

    def canon_ok(self, hs, g):
        for fs in relevant_slices(hs, g):
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*fs)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                self.res.backends['ring+z3'] = self.res.backends.get('ring+z3', 0) + 1
                return True
        return False

    def quick_real(self, hs, g):
        if not hasattr(self, '_qr') or self._qrn != len(self.F):
            self._qr, self._qrn = {}, len(self.F)
        k = (g.get_id(), len(hs))
        if k in self._qr:
            return self._qr[k][0]
        r = False
        for fs in [[]] + relevant_slices(hs, g):
            for mk in (lambda: z3.Solver(), lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'qfnra-nlsat').solver()):
                s = mk()
                s.set('timeout', 3000)
                try:
                    s.add(*fs)
                    s.add(z3.Not(g))
                    if s.check() == z3.unsat:
                        r = True
                        break
                except z3.Z3Exception:
                    pass
            if r:
                break
        self._qr[k] = (r, g)
        return r

    def oblige(self, st, label, goal, line=None):
        """an obligation: must be proved; afterwards it may be assumed"""
        if self.quiet:
            self.assume(goal)
            return True
        self.res.obligations += 1
        lab = label
        okk = False
        goals = goal if isinstance(goal, list) else [goal]
        okk = True
        for g in goals:
            if not self.prove(g, hard=True):
                okk = False
                break
        if okk:
            self.res.discharged += 1
        else:
            self.res.failed.append((lab, self.mod.line_of(line) if line else None, self.cur_trail(st)))
            if len(self.res.failed) > self.cfg.get('maxfail', 6):
                raise Timeout()
        for g in goals:
            if isinstance(g, bool):
                g = z3.BoolVal(g)
            if z3.is_false(g):
                continue
            self._derived.add(g.get_id())
            self._derived_keep.append(g)
            self.assume(g)
        return okk

    def cur_trail(self, st):
        return ' '.join(st.trail[-14:])

    # -------------------------------------------------- types/pointers
    def kinds(self, T, off, lt):
        if lt.k == 'ptr':
            return ['pobj', 'pidx'] if (T.key(), off) in FULLPTR else ['pobj']
        return {'int': ['int'], 'real': ['real']}.get(lt.k, [])

    def size_ct(self, ct):
        return ct.size

    def register(self, ct):
        """record value ranges of a type's int leaves"""
        kname = ct.key()
        if kname in self.regd:
            return
        self.regd.add(kname)
        for n, off, ct2 in (ct.members if ct.k == 'struct' else ()):
            if (kname, n) in FULLNAMES:
                FULLPTR.add((kname, off))
        for off, stride, count, lt in ct.leaves():
            if lt.k == 'int':
                n = lt.size * 8
                if lt.isbool:
                    rg = (0, 1)
                elif lt.signed:
                    rg = (-(1 << (n - 1)), (1 << (n - 1)) - 1)
                else:
                    rg = (0, (1 << n) - 1)
                self.ranges[(kname, off, 'int')] = rg

    def resolve(self, pv, ct):
        """location of an access of type ct through pv -> (key, o, i, j); raises if no such leaf"""
        T = pv.T
        if T is None:
            T = ct
        self.register(T)
        kind = {'int': 'int', 'real': 'real', 'ptr': 'pobj'}[ct.k]
        for off, stride, count, lt in T.leaves():
            if off <= pv.off < off + stride * count and (pv.off - off) % stride == 0 and lt.size == ct.size:
                if (lt.k == ct.k) and all(s % stride == 0 for s, _ in pv.dyn):
                    if pv.dyn and count == 1:
                        continue
                    j = z3.IntVal((pv.off - off) // stride)
                    for s, t in pv.dyn:
                        j = simp(j + (s // stride) * t)
                    return ((T.key(), off, kind), pv.o, pv.i, j)
        raise Unsupported('access %r at off %d in %r' % (ct, pv.off, T))

    def leafinfo(self, pv, size, lk):
        T = pv.T
        for off, stride, count, lt in T.leaves():
            if off <= pv.off < off + stride * count and (pv.off - off) % stride == 0 and lt.size == size and lt.k == lk:
                if all(s % stride == 0 for s, _ in pv.dyn):
                    if pv.dyn and count == 1:
                        continue
                    return off, stride, count, lt
        return None

    def pv_index(self, pv, ct, k):
        """pointer arithmetic p + k on C type ct"""
        if num(k) == 0:
            return pv
        T = pv.T
        if (T is None or T.k == 'void') and pv.off == 0 and not pv.dyn:
            return PV(pv.o, simp(pv.i + k), ct)
        if T is None:
            raise Unsupported('index of untyped pointer')
        if pv.off == 0 and not pv.dyn and T.size == ct.size:
            return PV(pv.o, simp(pv.i + k), T)
        return self.pv_inner(pv, ct, k)

    def pv_inner(self, pv, ct, k):
        n = num(k)
        if n is not None:
            return PV(pv.o, pv.i, pv.T, pv.off + n * ct.size, pv.dyn)
        return PV(pv.o, pv.i, pv.T, pv.off, pv.dyn + ((ct.size, k),))

    def lt_to_ct(self, t, signed=False):
        """best-effort C type of an LLVM type"""
        if t.k == 'int':
            return CT('int', 'i%d' % t.n, max(1, t.n // 8), signed)
        if t.k == 'double':
            return CT('real', 'double', 8)
        if t.k == 'float':
            return CT('real', 'float', 4)
        if t.k == 'ptr':
            return CT('ptr', size=8, el=CT('void'))
        if t.k == 'named':
            nm = re.sub(r'^(struct|union)\.', '', t.name)
            nm0 = re.sub(r'\.\d+$', '', nm)
            for n in (nm, nm0):
                if n in self.types.by_struct or n in self.types.typedef:
                    return self.types.named(n)
            raise Unsupported('struct ' + t.name)
        if t.k == 'arr':
            el = self.lt_to_ct(t.el, signed)
            return CT('arr', size=el.size * t.n, el=el, n=t.n)
        if t.k == 'struct' and not t.packed:       # part of a split local
            els = [self.lt_to_ct(x, signed) for x in t.el]
            r = CT('struct', 'anon:' + ','.join(e.key() for e in els))
            off = 0
            for q, e in enumerate(els):
                al = min(8, e.size) or 1
                off = (off + al - 1) // al * al
                r.members.append(('f%d' % q, off, e))
                off += e.size
            r.size = (off + 7) // 8 * 8 if any(e.size == 8 for e in els) else off
            return r
        raise Unsupported('ct of %r' % t)

    # -------------------------------------------------- main entry
    def fto(self, con):
        return min((con.timeout or self.cfg.get('fto', 120)) * self.cfg.get('scale', 1), self.cfg.get('maxfto', 1e9))

    def verify(self, fname):
        t0 = time.time()
        self.res = Result(fname)
        con = self.contracts[fname]
        self.con = con
        self.deadline = t0 + self.fto(con)
        f = self.mod.funcs.get(fname)
        if f is None:
            self.res.missing = bool(con.internal)
            self.res.error = 'function not found in the current source'
            return self.res
        try:
            if self.hints.get(fname):
                # the invariants which sufficed before, re-proved on the current source; all candidates when they do not suffice
                self.use_hints = True
                try:
                    self.deadline = t0 + 0.45 * self.fto(con)
                    self._verify(f, con)
                except Exception:
                    self.res.error = 'hints'
                if not self.res.error and not self.res.failed and self.res.obligations and self.res.obligations == self.res.discharged:
                    self.res.wall = time.time() - t0
                    return self.res
                prev = self.res
                self.res = Result(fname)
                self.res.queries, self.res.solver_s = prev.queries, prev.solver_s
                self.deadline = time.time() + self.fto(con)
                self._lmemo, self._modmemo, self._ctrmemo = {}, {}, {}
            self.use_hints = False
            self._verify(f, con)
        except Timeout:
            self.res.error = 'time limit or failure limit reached'
        except Unsupported as e:
            self.res.error = 'unsupported construct: %s' % e
        except z3.Z3Exception as e:
            self.res.error = 'solver error: %s' % str(e)[:300]
        self.res.wall = time.time() - t0
        return self.res

    def setup(self):
        self._second = {}
        self.S = z3.SimpleSolver()
        self._ma = MulAbs() if self.con.opts.get('absmul') else None
        self.S.set('smt.mbqi', False)
        self.S.set('smt.random_seed', 7)
        for k, v in self.con.opts.items():
            if k.startswith('smt.'):
                self.S.set(k, v)
        if self._ma:
            self.S.add(*MulAbs.axioms())
        self.F = []
        self.marks = []
        self.globalF = []
        self._gids = GidSet(self.globalF)
        self.bases = {}
        self.ranges = {}
        self.regd = set()
        self.quiet = False
        self._mergept = {}
        self._derived = set()
        self._derived_keep = []
        self._lmemo, self._modmemo, self._ctrmemo, self._lsign = {}, {}, {}, {}
        OBJRANK.clear()
        self.rank = 0
        self.gobj = {}
        self.ctr0 = z3.Int('ctr0')
        self.entry_mem = None

    def _verify(self, f, con):
        self.f = f
        self.setup()
        self.qto = con.opts.get('qto', self.cfg.get('qto', 4000)) * self.cfg.get('scale', 1)
        self.hto = con.opts.get('hto', self.cfg.get('hto', 1500)) * self.cfg.get('scale', 1)
        self.analyse_loops(f)
        st = State()
        st.ctr = self.ctr0
        self.assume(self.ctr0 >= 1000)
        rct, pcts = self.types.func_types(f)
        self.rct, self.pcts = rct, pcts
        vals = []
        params = list(f.params)
        self.sret = None
        if params and 'sret' in params[0][2]:
            o = z3.Int('sret')
            self.assume(z3.And(o > 0, o <= self.ctr0, cnt(o) >= 1))
            st.regs[params[0][1]] = PV(o, z3.IntVal(0), rct)
            self.sret = st.regs[params[0][1]]
            self.register(rct)
            params = params[1:]
            OBJRANK[o.get_id()] = (-1, o)   # the result slot is distinct from everything the callee can name
        pi = 0
        self.coerced = []
        q = 0
        for ct in pcts:
            lt, reg, at = params[q]
            if ct.k == 'struct' and not (lt.k == 'ptr' and 'byval' in at):
                # small struct passed in registers: a private object holding its fields
                self.register(ct)
                o = z3.Int('a%d_obj' % pi)
                v = PV(o, z3.IntVal(0), ct)
                self.assume(z3.And(o > 0, o <= self.ctr0, cnt(o) >= 1))
                for off, plt in self.coerce_parts(ct, [x[0] for x in params], q):
                    st.regs[params[q][1]] = self.do_load(st, PV(o, z3.IntVal(0), ct, off), plt, None, check=False)
                    q += 1
                vals.append(v)
                self.coerced.append(v)
                pi += 1
                continue
            v = self.sym_value('a%d' % pi, lt, ct, at)
            if isinstance(v, PV) and v.T is None:
                T = self.types.local_hint(f, reg)
                if T is not None and T.k not in ('void', 'fn', 'arr'):
                    self.register(T)
                    v = PV(v.o, v.i, T)
            st.regs[reg] = v
            vals.append(v)
            pi += 1
            q += 1
        self.argvals = vals
        if self.sret is not None:
            for v in vals:
                if isinstance(v, PV):
                    self.assume(v.o != self.sret.o)
        self.assume(z3.Not(z3.Select(self.base(FREED), self.ctr0, z3.IntVal(0), z3.IntVal(0)) != 0) if False else z3.BoolVal(True))
        self.entry_mem = Mem(self, {}, self.ctr0)
        c = Ctx(self, con, vals, pcts, self.entry_mem, self.entry_mem)
        if self.sret is not None:
            self.assume(z3.Not(self.entry_mem.freed(self.sret.o)))
        for v in vals:
            if isinstance(v, PV) and v.T is not None and v.T.k == 'struct':
                pass
        reqs = con.requires(c)
        for r in reqs:
            self.assume(r[1] if isinstance(r, tuple) else r)
        if con.opts.get('only') is not None:      # the part of the contract that is proved; the rest is decided otherwise and said so
            for r in con.opts['only'][0](c):
                self.assume(r)
            self.res.assumptions.add('%s: %s' % (con.name, con.opts['only'][1]))
        if con.defs is not None:
            for r in con.defs(c):
                self.assume(r[1] if isinstance(r, tuple) else r)
        # byval parameters are private valid copies
        for (lt, reg, at), v in zip(params, vals):
            if 'byval' in at:
                OBJRANK[v.o.get_id()] = (-2 - len(OBJRANK), v.o)    # a private copy: distinct from every other object
                self.assume(z3.And(v.o > 0, v.o <= self.ctr0, cnt(v.o) >= 1, v.i == 0, z3.Not(self.entry_mem.freed(v.o))))
                for v2 in vals:
                    if v2 is not v and isinstance(v2, PV):
                        self.assume(v2.o != v.o)
        for r in (con.opts['private'](c) if 'private' in con.opts else []):   # facts about private copies of by-value arguments
            self.assume(r)
        self.mods = con.modifies(c)
        self.byvals = [v for (lt, reg, at), v in zip(params, vals) if 'byval' in at]
        # vacuity: the precondition must be satisfiable (solver must not refute it)
        if self.prove(z3.BoolVal(False), to=self.hto):
            self.res.vacuous = True
            self.res.failed.append(('vacuous precondition', None, ''))
            return
        self.run(st, f.order[0], None, ())
        if self.res.exits == 0 and con.opts.get('noreturn') is None:
            self.res.vacuous = True
            self.res.failed.append(('no path reaches a return: vacuous', None, ''))

    def sym_value(self, nm, lt, ct, at=None):
        if lt.k == 'ptr':
            o, i = z3.Int(nm + '_obj'), z3.Int(nm + '_idx')
            self.assume(z3.And(o >= 0, o <= self.ctr0))
            if ct is not None and ct.k == 'struct':      # byval
                self.register(ct)
                return PV(o, z3.IntVal(0), ct)
            el = ct.el if ct is not None and ct.k == 'ptr' else None
            i = z3.IntVal(0)
            if el is not None and el.k == 'fn':
                return PV(o, i, el)
            if el is not None and el.k not in ('void',):
                self.register(el)
            return PV(o, i, el if el is not None and el.k != 'void' else None)
        if lt.k == 'int':
            if lt.n == 1:
                return BV1(z3.Bool(nm))
            signed = bool(ct is not None and ct.k == 'int' and ct.signed)
            t = z3.Int(nm)
            n = lt.n
            if ct is not None and ct.k == 'int' and ct.isbool:
                self.assume(z3.And(t >= 0, t <= 1))
            elif signed:
                self.assume(z3.And(t >= -(1 << (n - 1)), t < (1 << (n - 1))))
            else:
                self.assume(z3.And(t >= 0, t < (1 << n)))
            return IV(t, n, signed)
        if lt.k in ('double', 'float'):
            return RV(z3.Real(nm))
        raise Unsupported('param type %r' % lt)

    # -------------------------------------------------- CFG
    def analyse_loops(self, f):
        order = f.order
        blocks = f.blocks
        # reachable + dominators
        entry = order[0]
        rpo = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(blocks[b].succs()))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                adv = False
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(blocks[s].succs())))
                        adv = True
                        break
                if not adv:
                    rpo.append(x)
                    stack.pop()
        dfs(entry)
        rpo.reverse()
        self.rpo = {b: i for i, b in enumerate(rpo)}
        dom = {b: set(rpo) for b in rpo}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in blocks[b].preds if p in dom]
                nd = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom
        self.loops = {}
        for b in rpo:
            for s in blocks[b].succs():
                if s in dom[b]:
                    body = self.loops.setdefault(s, set([s]))
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += [p for p in blocks[x].preds if p in dom]
        self.loopidx = {h: k for k, h in enumerate(sorted(self.loops, key=lambda h: self.rpo[h]))}
        self.defblk = {}
        for b in rpo:
            for ins in blocks[b].ins:
                if ins.res:
                    self.defblk[ins.res] = (b, ins)

    # -------------------------------------------------- DFS over paths
    def run(self, st, bname, prev, active):
        """active: tuple of loop frames (header, collector) currently being explored"""
        self.check_time()
        # leaving loops?
        while active and bname not in self.loops[active[-1][0]]:
            if active[-1][2] == 'explore':
                return           # exits are not followed in exploratory passes
            active = active[:-1]
        if bname in self.loops:
            if active and active[-1][0] == bname:
                # back edge
                self.eval_phis(st, bname, prev)
                active[-1][1](st, prev)
                return
            u = self.unroll_bound(bname)
            key = ('unroll', bname)
            if u is not None or any(a[0] == key for a in ()):
                pass
            return self.do_loop(st, bname, prev, active)
        self.eval_phis(st, bname, prev)
        self.exec_block(st, bname, active)

    def unroll_bound(self, h):
        return None

    def eval_phis(self, st, bname, prev):
        blk = self.f.blocks[bname]
        new = {}
        for ins in blk.ins:
            if ins.op != 'phi':
                break
            for v, b in ins.x:
                if b == prev:
                    new[ins.res] = self.val(st, v, ins.ty)
                    break
        st.regs.update(new)

    def exec_block(self, st, bname, active):
        blk = self.f.blocks[bname]
        st.trail = st.trail + (bname,)
        for ins in blk.ins:
            if ins.op == 'phi':
                continue
            if ins.op in ('br', 'switch', 'ret', 'unreachable'):
                return self.terminator(st, blk, ins, active)
            if self.step(st, ins) == 'dead':
                return

    def branch(self, st, cond, target, bname, active):
        """explore target under cond"""
        c = simp(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_false(c):
            return
        self.push()
        try:
            self.assume(c)
            if not z3.is_true(c):
                if self.prove(z3.BoolVal(False), to=self.cfg.get('fto_ms', 300)):
                    return
            self.run(st.clone(), target, bname, active)
        finally:
            self.pop()

    def terminator(self, st, blk, ins, active):
        if ins.op == 'br':
            if len(ins.x) == 1:
                return self.run(st, ins.x[0], blk.name, active)
            c = self.boolv(self.val(st, ins.a[0], LT('int', 1)))
            if ins.x[0] == ins.x[1]:
                return self.run(st, ins.x[0], blk.name, active)
            if self.try_merge(st, blk, active):
                return
            self.branch(st, c, ins.x[0], blk.name, active)
            self.branch(st, z3.Not(c), ins.x[1], blk.name, active)
            return
        if ins.op == 'switch':
            v = self.val(st, ins.a[0], ins.ty)
            t = v.us()
            m = (1 << v.b)
            conds = []
            for cv, lab in ins.x[1]:
                cc = (t == (cv % m))
                conds.append(cc)
                self.branch(st, cc, lab, blk.name, active)
            self.branch(st, z3.And(*[z3.Not(x) for x in conds]) if conds else z3.BoolVal(True), ins.x[0], blk.name, active)
            return
        if ins.op == 'unreachable':
            return
        if ins.op == 'ret':
            self.res.paths += 1
            if any(a[2] == 'explore' for a in active):
                return
            rv = self.val(st, ins.a[0], ins.ty) if ins.a else None
            self.at_return(st, rv, ins)

    # -------------------------------------------------- joining pure branches
    PURECALLS = ('__assert_fail', 'exit', 'abort', 'pd_error', 'fprintf', 'printf')

    def pure_block(self, b):
        for ins in self.f.blocks[b].ins:
            if ins.op in ('store', 'ret'):
                return False
            if ins.op == 'call':
                nm = ins.x[1] if ins.x[0] == 'glob' else None
                if nm is None or not (nm in self.PURECALLS or nm.startswith('llvm.dbg') or nm.startswith('llvm.fabs') or nm.startswith('llvm.fmuladd') or nm.startswith('llvm.lifetime')):
                    return False
        return True

    def merge_pt(self, B):
        if B in self._mergept:
            return self._mergept[B]
        self._mergept[B] = None
        lo = frozenset(h for h in self.loops if B in self.loops[h])
        succ = self.f.blocks[B].succs()
        # blocks reachable, in topological order
        cand = []
        seen = set()
        work = list(succ)
        while work and len(seen) < 60:
            x = work.pop()
            if x in seen or x in self.dom[B]:
                continue
            seen.add(x)
            work += self.f.blocks[x].succs()
        cand = sorted(seen, key=lambda x: self.rpo[x])
        for J in cand:
            if J in self.loops:
                break
            region = set()
            work = [x for x in succ if x != J]
            ok = True
            while work and ok:
                x = work.pop()
                if x in region:
                    continue
                if x in self.loops or x in self.dom[B] or len(region) > 24 or not self.pure_block(x) or frozenset(h for h in self.loops if x in self.loops[h]) != lo:
                    t = self.f.blocks[x].ins[-1]
                    if not (t.op == 'unreachable' and self.pure_block(x)):
                        ok = False
                        break
                region.add(x)
                work += [y for y in self.f.blocks[x].succs() if y != J]
            if not ok or frozenset(h for h in self.loops if J in self.loops[h]) != lo:
                continue
            if any(J in self.f.blocks[x].succs() for x in region | {B}):
                self._mergept[B] = J
                break
        return self._mergept[B]

    def try_merge(self, st, blk, active):
        J = self.merge_pt(blk.name)
        if J is None or self.con.opts.get('nomerge'):
            return False
        snap = (self.res.obligations, self.res.discharged, len(self.res.failed))
        mark = len(self.F)
        results = []

        def go(s, b, prev, pcs):
            if b == J:
                self.eval_phis(s, b, prev)
                fs = [f for f in self.F[mark:] if f.get_id() not in self._derived and f.get_id() not in self.gids]
                results.append((list(pcs), s, fs))
                return
            if b != blk.name:
                self.eval_phis(s, b, prev)
            for ins in self.f.blocks[b].ins:
                if ins.op == 'phi' or (b == blk.name and ins.op not in ('br', 'switch')):
                    continue
                if ins.op == 'unreachable':
                    return
                if ins.op == 'br':
                    if len(ins.x) == 1:
                        return go(s, ins.x[0], b, pcs)
                    c = self.boolv(self.val(s, ins.a[0], LT('int', 1)))
                    alts = [(c, ins.x[0]), (z3.Not(c), ins.x[1])]
                elif ins.op == 'switch':
                    v = self.val(s, ins.a[0], ins.ty)
                    t = v.us()
                    alts = [(t == (cv % (1 << v.b)), lab) for cv, lab in ins.x[1]]
                    alts.append((z3.And(*[z3.Not(x) for x, _ in alts]) if alts else z3.BoolVal(True), ins.x[0]))
                else:
                    if self.step(s, ins) == 'dead':
                        return
                    continue
                for cond, tgt in alts:
                    cc = simp(cond)
                    if z3.is_false(cc):
                        continue
                    self.push()
                    try:
                        if not z3.is_true(cc):
                            self.assume(cc)
                            if self.prove(z3.BoolVal(False), to=self.cfg.get('fto_ms', 300)):
                                continue
                        go(s.clone(), tgt, b, pcs + [cc])
                    finally:
                        self.pop()
                    if len(results) > 12:
                        raise Unsupported('merge width')
                return
        try:
            go(st.clone(), blk.name, None, [])
            if not results:
                return True
            s0 = results[0][1]
            pcs = [And(*r[0]) if r[0] else z3.BoolVal(True) for r in results]
            merged = st.clone()
            merged.trail = st.trail + (J + '*',)
            names = set(results[0][1].regs)
            for r in results[1:]:
                names &= set(r[1].regs)
            for nm in names:
                vs = [r[1].regs[nm] for r in results]
                old = st.regs.get(nm)
                if all(v is vs[0] for v in vs):
                    merged.regs[nm] = vs[0]
                    continue
                acc = vs[-1]
                for pc, v in zip(pcs[-2::-1], vs[-2::-1]):
                    acc = self.ite(pc, v, acc)
                merged.regs[nm] = acc
        except Unsupported:
            self.res.obligations, self.res.discharged = snap[0], snap[1]
            del self.res.failed[snap[2]:]
            return False
        if len(results) > 1:
            self.assume(z3.Or(*pcs))
        for (pl, s, fs), pc in zip(results, pcs):
            ids = {x.get_id() for x in pl}
            keep = [f for f in fs if f.get_id() not in ids]
            if len(results) == 1:
                for f in pl + keep:
                    self.assume(f)
            elif keep:
                self.assume(z3.Implies(pc, z3.And(*keep) if len(keep) > 1 else keep[0]))
        self.exec_block(merged, J, active)
        return True

    def at_return(self, st, rv, ins):
        self.res.exits += 1
        con = self.con
        new = Mem(self, st.heap, st.ctr)
        if self.sret is not None:
            rv = self.sret
        elif self.rct.k == 'struct' and rv is not None:
            rv = self.box_struct(st, rv, ins.ty, self.rct, ins)
            new = Mem(self, st.heap, st.ctr)
        c = Ctx(self, con, self.argvals, self.pcts, self.entry_mem, new, rv, self.rct)
        for lab, g in con.ensures(c):
            self.oblige(st, 'post:' + lab, g, ins.line)
        # frame
        self.check_frame(st, c, ins)
        if con.frees:
            fin = self.hget(st, FREED)
            for k, p in enumerate(con.frees(c)):
                if isinstance(p, tuple):        # ('may', predicate): allowed, not promised
                    continue
                if isinstance(p, PtrView):
                    g = z3.Or(p.pv.o == 0, z3.Select(fin, p.pv.o, z3.IntVal(0), z3.IntVal(0)) != 0)
                else:
                    o = fresh('fo', I)
                    g = z3.Implies(z3.And(o > 0, o <= self.ctr0, p(o)), mrd(fin, o, z3.IntVal(0), z3.IntVal(0)) != 0)
                self.oblige(st, 'released %d' % k, g, ins.line)

    def box_struct(self, st, v, lt, ct, ins):
        """struct value held in registers -> fresh object"""
        p = self.new_object(st, ct, z3.IntVal(1))
        parts = v.els if isinstance(v, AV) else [v]
        lts = (lt.el if lt.k == 'struct' else [lt.el] * lt.n if lt.k in ('vec', 'arr') else [lt])
        off = 0
        for x, t in zip(parts, lts):
            self.do_store(st, PV(p.o, p.i, ct, off), t, x, ins)
            off += 8 if lt.k == 'struct' else self.mod.sizeof(t)
        return p

    def region_pred(self, regs, key, o, i, j):
        """formula: (o,i,j) of heap `key` lies in one of the regions"""
        out = []
        base = (key[0], key[1])
        for r in regs:
            if r[0] == 'ref':
                rv = r[1]
                for (k, ro, ri, rj) in self.ref_locs(rv):
                    if (k[0], k[1]) == base:
                        if rj is None:
                            out.append(z3.And(o == ro, i == ri))
                        else:
                            out.append(z3.And(o == ro, i == ri, j == rj))
            elif r[0] == 'obj':
                p = r[1]
                T = p.pv.T or p.ct
                if T.key() == key[0]:
                    out.append(o == p.pv.o)
            elif r[0] in ('rng', 'rngf'):
                p = r[1]
                T = p.pv.T or p.ct
                if p.pv.off == 0 and not p.pv.dyn:
                    if T.key() == key[0]:
                        if r[0] == 'rngf':
                            offs = set()
                            for n, off, ct in T.members:
                                if n in r[4]:
                                    offs |= {off + lo for lo, _, _, _ in ct.leaves()}
                            if key[1] not in offs:
                                continue
                        out.append(z3.And(o == p.pv.o, i >= p.pv.i + r[2], i < p.pv.i + r[3]))
                else:
                    kk, ro, ri, rj = self.resolve(p.pv, p.ct)
                    if (kk[0], kk[1]) == base:
                        out.append(z3.And(o == ro, i == ri, j >= rj + r[2], j < rj + r[3]))
            elif r[0] == 'pred':
                q = r[1](key)
                if q is not None:
                    out.append(q(o, i, j))
        if not out:
            return z3.BoolVal(False)
        return z3.Or(*out) if len(out) > 1 else out[0]

    def ref_locs(self, rv):
        """locations covered by a RefView (scalar, struct or inner array)"""
        if rv.ct.k in ('int', 'real', 'ptr'):
            k, o, i, j = self.resolve(rv.pv, rv.ct)
            return [(k, o, i, j)]
        out = []
        for off, stride, count, lt in rv.ct.leaves():
            p = PV(rv.pv.o, rv.pv.i, rv.pv.T or rv.ct, rv.pv.off + off, rv.pv.dyn)
            k, o, i, j = self.resolve(p, lt)
            if count == 1:
                out.append((k, o, i, j))
            else:
                for q in range(count):
                    out.append((k, o, i, simp(j + q)))
        return out

    def region_keys(self, regs):
        ks = set()

        def addT(T):
            self.register(T)
            for off, stride, count, lt in T.leaves():
                for kd in self.kinds(T, off, lt):
                    ks.add((T.key(), off, kd))
        for r in regs:
            if r[0] == 'ref':
                for k, _, _, _ in self.ref_locs(r[1]):
                    ks.add(k)
                    if k[2] == 'pobj' and (k[0], k[1]) in FULLPTR:
                        ks.add((k[0], k[1], 'pidx'))
            elif r[0] in ('obj', 'rng', 'rngf'):
                p = r[1]
                if p.pv.off or p.pv.dyn:
                    k = self.resolve(p.pv, p.ct)[0]
                    ks.add(k)
                    if k[2] == 'pobj' and (k[0], k[1]) in FULLPTR:
                        ks.add((k[0], k[1], 'pidx'))
                else:
                    T = p.pv.T or p.ct
                    if r[0] == 'rngf':
                        self.register(T)
                        for n, off, ct in T.members:
                            if n in r[4]:
                                for lo, _, _, lt in ct.leaves():
                                    for kd in self.kinds(T, off + lo, lt):
                                        ks.add((T.key(), off + lo, kd))
                    else:
                        addT(T)
            elif r[0] == 'pred':
                for k in list(self.bases) + list(self.con_keys):
                    if r[1](k) is not None:
                        ks.add(k)
        return ks

    con_keys = ()

    def check_frame(self, st, c, ins):
        regs = list(self.mods)
        for v in self.byvals:
            regs.append(('obj', PtrView(self.entry_mem, v, v.T)))
        if self.sret is not None:
            regs.append(('obj', PtrView(self.entry_mem, self.sret, self.sret.T)))
        for key, h in list(st.heap.items()):
            b = self.base(key)
            if h.eq(b):
                continue
            o, i, j = fresh('fo', I), fresh('fi', I), fresh('fj', I)
            if key == FREED:
                i = j = z3.IntVal(0)
                fr = [p[1] if isinstance(p, tuple) else p for p in self.con.frees(c)] if self.con.frees else []
                excl = z3.Or(*[(o == p.pv.o if isinstance(p, PtrView) else p(o)) for p in fr]) if fr else z3.BoolVal(False)
            else:
                excl = self.region_pred(regs, key, o, i, j)
            if key == FREED:
                g = z3.Implies(z3.And(o > 0, o <= self.ctr0, z3.Not(excl)), (mrd(h, o, i, j) != 0) == (z3.Select(b, o, i, j) != 0))
                self.oblige(st, 'frame:released objects', g, ins.line)
                continue
            g = z3.Implies(z3.And(o > 0, o <= self.ctr0, z3.Not(excl)), mrd(h, o, i, j) == z3.Select(b, o, i, j))
            self.oblige(st, 'frame:%s+%d' % (key[0], key[1]), g, ins.line)

    # -------------------------------------------------- loops
    def havoc_val(self, v, ins):
        nm = 'phi' + ins.res[1:]
        if isinstance(v, IV):
            t = fresh(nm, I)
            # signedness: keep that of the incoming representation
            n = v.b
            if v.s:
                self.assume(z3.And(t >= -(1 << (n - 1)), t < (1 << (n - 1))))
            else:
                self.assume(z3.And(t >= 0, t < (1 << n)))
            return IV(t, n, v.s)
        if isinstance(v, BV1):
            return BV1(fresh(nm, z3.BoolSort()))
        if isinstance(v, RV):
            return RV(fresh(nm, R))
        if isinstance(v, PV):
            return PV(fresh(nm + '_o', I), fresh(nm + '_i', I), v.T, v.off, v.dyn)
        if isinstance(v, UV):
            if ins.ty.k == 'int' and ins.ty.n > 1:
                t = fresh(nm, I)
                self.assume(z3.And(t >= 0, t < (1 << ins.ty.n)))
                return IV(t, ins.ty.n, False)
            if ins.ty.k == 'int':
                return BV1(fresh(nm, z3.BoolSort()))
            if ins.ty.k == 'double':
                return RV(fresh(nm, R))
            if ins.ty.k == 'ptr':
                return PV(fresh(nm + '_o', I), fresh(nm + '_i', I), None)
        if isinstance(v, AV):
            return v
        if isinstance(v, FV):
            return v
        raise Unsupported('phi havoc %r' % ins)

    def phis(self, h):
        return [x for x in self.f.blocks[h].ins if x.op == 'phi']

    def phi_signed(self, h, p):
        """pick the representation of an int phi: signed iff used with signed/nsw ops or sext"""
        return None

    def loop_signs(self, h):
        if h in self._lsign:
            return self._lsign[h]
        out = {}
        f = self.f
        for p in self.phis(h):
            if p.ty.k != 'int' or p.ty.n == 1:
                continue
            # look at uses
            score = 0
            rel = {p.res}
            for v, b in p.x:
                if v[0] == 'reg':
                    rel.add(v[1])
            for bn in f.order:
                for ins in f.blocks[bn].ins:
                    if ins.op == 'icmp' and ins.x not in ('eq', 'ne'):
                        if any(a == ('reg', r) for a in ins.a for r in rel):
                            score += 1 if ins.x[0] == 's' else -1
                    elif ins.op in ('add', 'sub', 'mul') and any(a == ('reg', p.res) for a in ins.a):
                        score += 1 if 'nsw' in ins.flags else -1
                    elif ins.op == 'sext' and ins.a[0] == ('reg', p.res):
                        score += 1
                    elif ins.op == 'zext' and ins.a[0] == ('reg', p.res):
                        score -= 1
            out[p.res] = score > 0
        self._lsign[h] = out
        return out

    _lsign = {}

    def do_loop(self, st, h, prev, active):
        f = self.f
        self.eval_phis(st, h, prev)
        # constant-trip loops: unroll concretely when the header's condition is decided by constants
        u = self.try_unroll(st, h, prev, active)
        if u:
            return
        signs = self.loop_signs(h)
        for p in self.phis(h):
            v = st.regs[p.res]
            if isinstance(v, IV) and p.res in signs and v.s != signs[p.res]:
                st.regs[p.res] = IV(v.as_(signs[p.res]), v.b, signs[p.res], v.nn)
        # unify pointer types of phis
        for p in self.phis(h):
            v = st.regs[p.res]
            if isinstance(v, PV) and (v.T is None or num(v.o) == 0):
                T = self.types.local_hint(f, p.res)
                if T is not None and T.k != 'void':
                    st.regs[p.res] = PV(v.o, v.i, T, v.off, v.dyn)
                    self.register(T)
        entry = st
        lkey = 'L%d' % self.loopidx[h]
        pre = Mem(self, dict(st.heap), st.ctr)
        prestate = st.clone()
        bounds = self.loop_bounds(st, h)
        signs_ = signs

        hint = self.hints.get(self.f.name, {}).get(lkey) if self.use_hints else None
        mkey = (h, st.trail)
        memo = self._lmemo.get(mkey)
        for attempt in ([set(hint)] if hint is not None else [None]):
            modkeys = set()
            ctrmod = [False]
            # candidates holding on entry
            self.push()
            try:
                cands = dict(self.candidates(entry, h, pre, prestate, bounds, modkeys))
            finally:
                self.pop()
            labels = [l for l in cands]
            if attempt is not None:
                labels = [l for l in labels if l in set(attempt)]
            alive = None
            if attempt is not None and h not in self._modmemo:
                hm = self.hints[self.f.name].get('mod:' + lkey)
                if hm is not None:
                    for k0, k1, k2 in hm[0]:
                        if (k0, k1, k2) not in self.bases and (k0, k1, k2) != FREED and k0 not in self.regd:
                            break
                    else:
                        self._modmemo[h] = {tuple(k) for k in hm[0]}
                        self._ctrmemo[h] = hm[1]
            modkeys = set(self._modmemo.get(h, ()))
            ctrmod[0] = self._ctrmemo.get(h, False)
            it = 0
            entry_ok = {}
            while True:
                it += 1
                if it > 40:
                    raise Timeout()
                cands = dict(self.candidates(entry, h, pre, prestate, bounds, modkeys))
                def allowed(l):
                    if attempt is not None:
                        return l in attempt
                    return memo is None or l not in memo[1] or l in memo[0]
                if alive is None:
                    want = [l for l in cands if allowed(l)]
                else:
                    want = [l for l in cands if l in alive or (l not in seen_labels and allowed(l))]
                seen_labels = set(cands)
                # initiation
                good = []
                todo = []
                for l in want:
                    if l in entry_ok:
                        if entry_ok[l]:
                            good.append(l)
                    else:
                        todo.append(l)
                if todo:
                    if self.prove(z3.And(*[cands[l] for l in todo]), to=self.hto):
                        for l in todo:
                            entry_ok[l] = True
                            good.append(l)
                    else:
                        for l in todo:
                            r = self.prove(cands[l], to=self.hto) or self.second(lkey, l, cands[l])
                            if not r and self.cfg.get('trace'):
                                print('   init', self.f.name, lkey, l, 'quiet' if self.quiet else '', flush=True)
                            entry_ok[l] = r
                            if r:
                                good.append(l)
                good = [l for l in want if l in set(good)]
                # consecution
                fails = set()
                newkeys = set()
                self.push()
                oldq = self.quiet
                self.quiet = True
                try:
                    hs = self.havoc_state(entry, h, modkeys, ctrmod[0], pre)
                    hc = dict(self.candidates(hs, h, pre, prestate, bounds, modkeys))
                    for l in good:
                        self.assume(hc[l])
                    hheap = dict(hs.heap)
                    hctr = hs.ctr

                    def latch(s2, prevb):
                        for k, v in s2.heap.items():
                            hv = hheap.get(k)
                            if hv is None:
                                hv = self.bases.get(k)
                                if hv is None:
                                    hv = self.base(k)
                            if not v.eq(hv) and k not in modkeys:
                                newkeys.add(k)
                        if not s2.ctr.eq(hctr) and not ctrmod[0]:
                            newkeys.add('ctr')
                        if newkeys:
                            return
                        for p in self.phis(h):
                            v = s2.regs[p.res]
                            if isinstance(v, IV) and p.res in signs_ and v.s != signs_[p.res]:
                                s2.regs[p.res] = IV(v.as_(signs_[p.res]), v.b, signs_[p.res], v.nn)
                        lc = dict(self.candidates(s2, h, pre, prestate, bounds, modkeys))
                        rem = [l for l in good if l not in fails]
                        if not rem:
                            return
                        if self.prove(z3.And(*[lc[l] for l in rem]), to=self.hto):
                            return
                        for l in rem:
                            if not self.prove(lc[l], to=self.hto) and not self.second(lkey, l, lc[l]):
                                fails.add(l)
                                if self.cfg.get('trace'):
                                    print('   drop', self.f.name, lkey, l, 'quiet' if oldq else '', s2.trail[-6:], flush=True)
                    self.exec_block(hs, h, active + ((h, latch, 'explore'),))
                finally:
                    self.quiet = oldq
                    self.pop()
                if newkeys:
                    if 'ctr' in newkeys:
                        ctrmod[0] = True
                        newkeys.discard('ctr')
                    modkeys |= newkeys
                    self._modmemo[h] = set(modkeys)
                    self._ctrmemo[h] = ctrmod[0]
                    alive = set(good)
                    # candidates about newly modified keys were trivially true before: re-examine
                    continue
                alive = set(good) - fails
                if not fails:
                    break
            if attempt is None:
                self._lmemo[mkey] = (set(alive), set(seen_labels))
            if self.cfg.get('trace') and not self.quiet:
                print('   kept', self.f.name, lkey, sorted(l for l in alive if l.startswith('U ')), flush=True)
            # final pass: obligations and exits
            nfail0 = len(self.res.failed)
            snap = (self.res.obligations, self.res.discharged, self.res.exits, self.res.paths)
            last = True
            self.push()
            try:
                hs = self.havoc_state(entry, h, modkeys, ctrmod[0], pre)
                hc = dict(self.candidates(hs, h, pre, prestate, bounds, modkeys))
                for l in hc:
                    if l in alive:
                        self.assume(hc[l])
                if not self.quiet:
                    self.res.loops['%s' % lkey] = sorted(alive | set(self.res.loops.get(lkey, ())))
                    self.res.loops['mod:' + lkey] = [sorted(modkeys), ctrmod[0]]
                    self.res.obligations += 2 * len(alive)
                    self.res.discharged += 2 * len(alive)
                hs.path = st.path + (h,)
                mode = 'explore' if self.quiet and not self.quiet_exits else 'final'
                self.exec_block(hs, h, active + ((h, lambda s2, p: None, 'final'),))
            finally:
                self.pop()
            if len(self.res.failed) > nfail0 and not last:
                # the hinted invariants were too weak on this source: retry with the full set
                del self.res.failed[nfail0:]
                self.res.obligations, self.res.discharged, self.res.exits, self.res.paths = snap
                continue
            break

    quiet_exits = True
    use_hints = False
    _lmemo = {}
    _modmemo = {}
    _ctrmemo = {}

    def havoc_state(self, entry, h, modkeys, ctrmod, pre):
        hs = entry.clone()
        for p in self.phis(h):
            hs.regs[p.res] = self.havoc_val(entry.regs[p.res], p)
        if ctrmod:
            c2 = fresh('ctr', I)
            self.assume(c2 >= entry.ctr)
            hs.ctr = c2
        for k in modkeys:
            h2 = fresh('H:%s:%d:%s' % k, hsort(k[2]))
            hs.heap[k] = h2
            o, i, j = z3.Ints('o i j')
            s = z3.Select(h2, o, i, j)
            if k[2] == 'int':
                r = self.key_range(k)
                if r:
                    self.assume(z3.ForAll([o, i, j], z3.And(r[0] <= s, s <= r[1]), patterns=[s]))
            elif k[2] == 'pobj':
                self.assume(z3.ForAll([o, i, j], z3.Implies(z3.And(o > 0, o <= hs.ctr), z3.And(0 <= s, s <= hs.ctr)), patterns=[s]))
        hs.ok = set()
        return hs

    def try_unroll(self, st, h, prev, active):
        """unroll if, starting from the concrete phi values, the loop's trip count is constant (<= 16)"""
        f = self.f
        maxu = self.con.opts.get('unroll', 8)
        env = {}
        for p in self.phis(h):
            v = st.regs[p.res]
            if isinstance(v, IV) and num(v.t) is not None:
                env[p.res] = num(v.us())
        if not env:
            return False
        trip = self.const_trip(h, env, maxu)
        if trip is None:
            return False
        # execute iterations by treating back edges as ordinary edges
        self._unrolled = getattr(self, '_unrolled', set())

        def again(s2, prevb):
            # back edge: s2 phis already evaluated for header by run()
            self.exec_block(s2, h, active + ((h, again, 'final'),))
        self.exec_block(st, h, active + ((h, again, 'final'),))
        return True

    def const_trip(self, h, env, maxu):
        """constant trip count through a single induction variable compared with a constant"""
        f = self.f
        body = self.loops[h]
        for b in body:
            t = f.blocks[b].ins[-1]
            if t.op != 'br' or len(t.x) != 2:
                continue
            ex = [s for s in t.x if s not in body]
            if len(ex) != 1:
                continue
            c = t.a[0]
            if c[0] != 'reg' or c[1] not in self.defblk:
                continue
            ci = self.defblk[c[1]][1]
            if ci.op != 'icmp':
                continue
            # header-test or latch-test dominated: must be executed every iteration
            latches = [x for x in f.blocks[h].preds if x in body]
            if not all(b in self.dom[l] for l in latches):
                continue
            for pres, init in env.items():
                ph = self.defblk[pres][1]
                steps = [(v, bb) for v, bb in ph.x if bb in body]
                sv = {v for v, bb in steps}
                if len(sv) != 1:
                    continue
                v = list(sv)[0]
                if v[0] != 'reg':
                    continue
                si = self.defblk[v[1]][1]
                if si.op not in ('add', 'sub'):
                    continue
                if not (si.a[0] == ('reg', pres) and si.a[1][0] == 'int'):
                    continue
                step = si.a[1][1] * (1 if si.op == 'add' else -1)
                n = ph.ty.n
                m = 1 << n
                # simulate
                x = init

                def ev(a, x, nx):
                    if a == ('reg', pres):
                        return x
                    if a == v:
                        return nx
                    if a[0] == 'int':
                        return a[1] % m
                    return None
                ok = True
                for k in range(maxu + 2):
                    nx = (x + step) % m
                    a, bb = ev(ci.a[0], x, nx), ev(ci.a[1], x, nx)
                    if a is None or bb is None:
                        ok = False
                        break
                    sa, sb = (a - m if a >= m // 2 else a), (bb - m if bb >= m // 2 else bb)
                    r = {'eq': a == bb, 'ne': a != bb, 'ult': a < bb, 'ule': a <= bb, 'ugt': a > bb, 'uge': a >= bb,
                         'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[ci.x]
                    nxt = t.x[0] if r else t.x[1]
                    if nxt not in body:
                        return k
                    x = nx
                if not ok:
                    continue
        return None

    # --- candidate invariants
    def loop_bounds(self, st, h):
        """loop-invariant integer terms compared against inside the loop"""
        f = self.f
        body = self.loops[h]
        out = []
        seen = set()
        for b in sorted(body, key=lambda x: self.rpo[x]):
            for ins in f.blocks[b].ins:
                if ins.op == 'icmp' and ins.ty.k == 'int':
                    for a in ins.a:
                        v = self.inv_eval(st, a, ins.ty, body, 0)
                        if v is not None and isinstance(v, IV):
                            t = simp(v.t)
                            if t.get_id() not in seen:
                                seen.add(t.get_id())
                                out.append(v)
                            if ins.x in ('sle', 'ule') and a is ins.a[1] or ins.x in ('sge', 'uge') and a is ins.a[0]:   # p <= b: the loop is left with p == b + 1
                                t = simp(v.t + 1)
                                if t.get_id() not in seen:
                                    seen.add(t.get_id())
                                    out.append(IV(t, v.b, v.s))
        return out[:8]

    def inv_eval(self, st, a, ty, body, d):
        if d > 8:
            return None
        if a[0] == 'int':
            return self.val(st, a, ty)
        if a[0] != 'reg':
            return None
        db = self.defblk.get(a[1])
        if db is None or db[0] not in body:
            return st.regs.get(a[1])
        ins = db[1]
        try:
            if ins.op == 'load':
                p = self.inv_eval(st, ins.a[0], LT('ptr'), body, d + 1)
                if not isinstance(p, PV):
                    return None
                return self.do_load(st, p, ins.ty, None, check=False)
            if ins.op == 'gep':
                args = [self.inv_eval(st, x, t, body, d + 1) for x, t in zip(ins.a, ins.x)]
                if any(x is None for x in args):
                    return None
                return self.do_gep(st, ins, args)
            if ins.op == 'select':
                c = self.inv_eval(st, ins.a[0], LT('int', 1), body, d + 1)
                args = [self.inv_eval(st, x, ins.ty, body, d + 1) for x in ins.a[1:]]
                if c is None or any(x is None or not isinstance(x, IV) for x in args):
                    return None
                return self.ite(self.boolv(c), *args)
            if ins.op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'zext', 'sext', 'trunc'):
                args = [self.inv_eval(st, x, ins.ty if ins.op not in CASTOPS else ins.x, body, d + 1) for x in ins.a]
                if any(x is None or not isinstance(x, IV) for x in args):
                    return None
                q = self.quiet
                self.quiet = True
                self.push()
                try:
                    return self.arith(st, ins, args)
                finally:
                    self.pop()
                    self.quiet = q
        except (Unsupported, KeyError):
            return None
        return None

    def candidates(self, st, h, pre, prestate, bounds, modkeys):
        """list of (label, formula) evaluated in state st at loop header h"""
        out = []
        phis = self.phis(h)
        ints = [(p.res, st.regs[p.res]) for p in phis if isinstance(st.regs[p.res], IV)]
        cur = Mem(self, st.heap, st.ctr)
        lo = self.loopidx[h]
        init = prestate.regs
        for k, (r, v) in enumerate(ints):
            iv = init[r]
            it = iv.as_(v.s)
            out.append(('p%d>=init' % k, v.t >= it))
            out.append(('p%d<=init' % k, v.t <= it))
            if v.s:
                out.append(('p%d>=0' % k, v.t >= 0))
            if v.b == 8:
                out.append(('p%d<=1' % k, v.t <= 1))
            for q, b in enumerate(bounds):
                bt = b.as_(v.s)
                out.append(('p%d<=b%d' % (k, q), v.t <= bt))
                out.append(('p%d<=max(init,b%d)' % (k, q), z3.Or(v.t <= bt, v.t <= it)))
                n = num(bt)
            for k2, (r2, v2) in enumerate(ints):
                if k2 > k:
                    out.append(('p%d-p%d' % (k, k2), v.t - v2.t == it - init[r2].as_(v2.s)))
                    out.append(('p%d+p%d' % (k, k2), v.t + v2.t == it + init[r2].as_(v2.s)))
                if k2 != k:
                    out.append(('p%d<=p%d' % (k, k2), v.t <= v2.t))
        for k, p in enumerate(phis):
            v = st.regs[p.res]
            if isinstance(v, PV):
                iv = init[p.res]
                if isinstance(iv, PV):
                    out.append(('ptr%d same obj' % k, v.o == iv.o))
                    out.append(('ptr%d same idx' % k, v.i == iv.i))
                out.append(('ptr%d allocated' % k, z3.And(v.o >= 0, v.o <= st.ctr)))
                out.append(('ptr%d nonnull' % k, v.o != 0))
                out.append(('ptr%d idx0' % k, v.i == 0))
            elif isinstance(v, BV1):
                out.append(('b%d true' % k, v.t))
                out.append(('b%d false' % k, z3.Not(v.t)))
                if isinstance(init[p.res], BV1):
                    out.append(('b%d init' % k, v.t == init[p.res].t))
        # frames for the keys this loop modifies
        o, i, j = z3.Ints('o i j')
        for key in sorted(modkeys):
            h0 = pre.arr(key)
            h1 = cur.arr(key)
            kn = '%s+%d%s' % (key[0], key[1], key[2][0:2])
            s1 = z3.Select(h1, o, i, j)
            e = s1 == z3.Select(h0, o, i, j)
            if not h1.eq(h0):
                def Q(cond):
                    return z3.ForAll([o, i, j], z3.Implies(cond, e), patterns=[s1])
            else:
                def Q(cond):
                    return z3.BoolVal(True)
            if key == FREED:
                z0 = z3.IntVal(0)
                sa, sb = z3.Select(h1, o, z0, z0), z3.Select(h0, o, z0, z0)
                out.append(('freed stays freed', z3.ForAll([o], z3.Implies(sb != 0, sa != 0), patterns=[sa])))
            out.append(('frame old %s' % kn, Q(z3.And(o >= 0, o <= self.ctr0))))
            out.append(('frame pre %s' % kn, Q(z3.And(o >= 0, o <= pre.ctr))))
            # frames relative to written objects (learned)
            objs = self.written_objs(h, key, prestate)
            if objs:
                out.append(('frame obj %s' % kn, Q(z3.And(o >= 0, o <= pre.ctr, *[o != w for w in objs]))))
                if len(objs) <= 3:
                    for k, (r, v) in enumerate(ints):
                        nb = z3.Or(*[o == w for w in objs])
                        out.append(('frame ge p%d %s' % (k, kn), Q(z3.And(nb, i >= v.t))))
                        out.append(('frame gt p%d %s' % (k, kn), Q(z3.And(nb, i > v.t))))
                        out.append(('frame lt p%d %s' % (k, kn), Q(z3.And(nb, i < v.t))))
                        out.append(('frame le p%d %s' % (k, kn), Q(z3.And(nb, i <= v.t))))
                        out.append(('frame jge p%d %s' % (k, kn), Q(z3.And(nb, j >= v.t))))
            for q, v in enumerate([v for v in self.alloc_ptrs(prestate) if v.T.k in ('struct', 'arr') and v.T.key() == key[0]] if not h1.eq(h0) else []):
                if not any(v.o.eq(w) for w in objs):
                    out.append(('local %d kept %s' % (q, kn), z3.ForAll([i, j], z3.Select(h1, v.o, i, j) == z3.Select(h0, v.o, i, j), patterns=[z3.Select(h1, v.o, i, j)])))
            for q, v in enumerate(self.byvals):
                if v.T is not None and v.T.k == 'struct' and v.T.key() == key[0]:
                    out.append(('byval %d kept %s' % (q, kn), z3.ForAll([i, j], z3.Select(h1, v.o, i, j) == z3.Select(self.base(key), v.o, i, j), patterns=[z3.Select(h1, v.o, i, j)])))
            # the function's own frame
            if self.mods is not None:
                ex = self.region_pred(self.mods + [('obj', PtrView(self.entry_mem, v, v.T)) for v in self.byvals] +
                                      ([('obj', PtrView(self.entry_mem, self.sret, self.sret.T))] if self.sret is not None else []), key, o, i, j)
                hb = self.base(key)
                if not h1.eq(hb):
                    out.append(('frame fn %s' % kn, z3.ForAll([o, i, j], z3.Implies(z3.And(o >= 0, o <= self.ctr0, z3.Not(ex)),
                                                                                  s1 == z3.Select(hb, o, i, j)), patterns=[s1])))
                else:
                    out.append(('frame fn %s' % kn, z3.BoolVal(True)))
        # derived from the postcondition: forall k in [lo,hi) P(k)  ~~>  forall k in [lo,x) P(k) / [x+1,hi) P(k)
        c = Ctx(self, self.con, self.argvals, self.pcts, self.entry_mem, cur, None, self.rct)
        if self.sret is not None:
            c.ret_v = self.sret
        for lab, g in self.safe_ensures(c):
            fa = getattr(g, '_fa', None)
            if fa is not None:
                lo_, hi_, fn, pats = fa
                for k, (r, v) in enumerate(ints):
                    out.append(('E %s [lo,p%d)' % (lab, k), FA(lo_, v.t, fn, pats)))
                    out.append(('E %s (p%d,hi)' % (lab, k), FA(v.t + 1, hi_, fn, pats)))
                    out.append(('E %s [p%d,hi)' % (lab, k), FA(v.t, hi_, fn, pats)))
                out.append(('E %s' % lab, FA(lo_, hi_, fn, pats)))
            else:
                out.append(('E %s' % lab, g))
        if self.con.inv is not None:
            L = LoopCtx()
            L.c = c
            L.eng = self
            L.cur, L.pre, L.old = cur, pre, self.entry_mem
            L.ints = [(k, v.t) for k, (r, v) in enumerate(ints)]
            L.inits = [init[r].as_(v.s) for (r, v) in ints]
            L.reals = [(k, st.regs[p.res].t) for k, p in enumerate(phis) if isinstance(st.regs[p.res], RV)]
            L.bools = [(k, st.regs[p.res].t) for k, p in enumerate(phis) if isinstance(st.regs[p.res], BV1)]
            L.bools += [('i%d' % k, v.t != 0) for k, (r, v) in enumerate(ints) if v.b == 8]
            L.ptrs = [(k, PtrView(cur, st.regs[p.res], st.regs[p.res].T)) for k, p in enumerate(phis) if isinstance(st.regs[p.res], PV) and st.regs[p.res].T is not None]
            L.bounds = [(k, b) for k, b in enumerate(bounds)]
            L.idx = lo
            L.outer = [(k, v.t) for k, v in enumerate(self.outer_ints(st, h))]
            L.optrs = [(k, PtrView(cur, v, v.T)) for k, v in enumerate(self.outer_ptrs(st, h))]
            L.objs = [PtrView(cur, v, v.T) for v in self.alloc_ptrs(st) + ([self.sret] if self.sret is not None else [])]
            L.prectr = pre.ctr
            L.ctr0 = self.ctr0
            L.allints = L.ints + [('o%d' % k, t) for k, t in L.outer]
            try:
                for lab, g in self.con.inv(L):
                    if g is not None:
                        out.append(('U ' + lab, g if not isinstance(g, bool) else z3.BoolVal(g)))
            except NoRet:
                pass
        seen = set()
        res = []
        for l, g in out:
            if l in seen:
                continue
            seen.add(l)
            res.append((l, g))
        return res

    def outer_ints(self, st, h):
        """int phis of enclosing loops (and of loops already left) visible here"""
        out = []
        for h2 in sorted(self.loops, key=lambda x: self.rpo[x]):
            if h2 != h and h2 in self.dom[h]:
                for p in self.phis(h2):
                    v = st.regs.get(p.res)
                    if isinstance(v, IV):
                        out.append(v)
        return out

    def outer_ptrs(self, st, h):
        out = []
        for h2 in sorted(self.loops, key=lambda x: self.rpo[x]):
            if h2 != h and h2 in self.dom[h]:
                for p in self.phis(h2):
                    v = st.regs.get(p.res)
                    if isinstance(v, PV) and v.T is not None:
                        out.append(v)
        return out

    def alloc_ptrs(self, st):
        out = []
        for r in sorted(st.regs, key=lambda r: (len(r), r)):
            v = st.regs[r]
            if isinstance(v, PV) and v.T is not None and v.T.k != 'void' and v.off == 0 and v.o.get_id() in OBJRANK and r in self.defblk and self.defblk[r][1].op in ('call', 'alloca'):
                out.append(v)
        return out

    def safe_ensures(self, c):
        try:
            return list(self.con.ensures(c))
        except NoRet:
            return []
        except Unsupported:
            return []

    def written_objs(self, h, key, st):
        """objects (loop-invariant pointers) through which stores in this loop write `key`"""
        k = (h, key)
        out = []
        seen = set()
        body = self.loops[h]
        f = self.f
        for b in sorted(body, key=lambda x: self.rpo[x]):
            for ins in f.blocks[b].ins:
                ptrs = []
                if ins.op == 'store':
                    ptrs = [ins.a[1]]
                elif ins.op == 'call':
                    ptrs = [a for t, a, at in ins.a if t.k == 'ptr']
                for a in ptrs:
                    p = self.inv_base(st, a, body, 0)
                    if p is not None and p.T is not None and p.T.key() == key[0]:
                        if p.o.get_id() not in seen:
                            seen.add(p.o.get_id())
                            out.append(p.o)
        return out

    def inv_base(self, st, a, body, d):
        """base object of an address, following geps whose index may vary"""
        if d > 8 or a[0] != 'reg':
            return None
        db = self.defblk.get(a[1])
        if db is None or db[0] not in body:
            v = st.regs.get(a[1])
            return v if isinstance(v, PV) else None
        ins = db[1]
        if ins.op == 'gep':
            return self.inv_base(st, ins.a[0], body, d + 1)
        if ins.op == 'load':
            v = self.inv_eval(st, a, LT('ptr'), body, 0)
            return v if isinstance(v, PV) else None
        if ins.op == 'phi' and ins.ty.k == 'ptr':
            v = st.regs.get(a[1])
            return v if isinstance(v, PV) else None
        return None

    # -------------------------------------------------- values
    def val(self, st, a, ty):
        k = a[0]
        if k == 'reg':
            return st.regs[a[1]]
        if k == 'int':
            if ty.k == 'int' and ty.n == 1:
                return BV1(z3.BoolVal(a[1] != 0))
            if ty.k == 'int':
                return IV(z3.IntVal(a[1]), ty.n, True)
            raise Unsupported('int const of %r' % ty)
        if k == 'fp':
            return RV(fpconst(a[1], ty))
        if k == 'null':
            return NULLP()
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            if ty.k == 'double':
                return RV(z3.RealVal(0))
            if ty.k in ('struct', 'vec', 'arr'):
                els = ty.el if ty.k == 'struct' else [ty.el] * ty.n
                return AV([self.val(st, ('zero',), e) for e in els])
            if ty.k == 'int':
                return self.val(st, ('int', 0), ty)
            raise Unsupported('zeroinit %r' % ty)
        if k == 'agg':
            return AV([self.val(st, v, t) for t, v in a[1]])
        if k == 'glob':
            return self.global_ptr(st, a[1])
        if k == 'cgep':
            base = self.val(st, a[2][0][1], a[2][0][0])
            ins = FakeGep(a[1], [x[1] for x in a[2]], [x[0] for x in a[2]])
            return self.do_gep(st, ins, [self.val(st, x[1], x[0]) for x in a[2]])
        raise Unsupported('value %r' % (a,))

    def undef(self, ty):
        if ty.k == 'int' and ty.n == 1:
            return BV1(fresh('undef', z3.BoolSort()))
        if ty.k == 'int':
            t = fresh('undef', I)
            self.assume(z3.And(t >= 0, t < (1 << ty.n)))
            return IV(t, ty.n, False, un=True)
        if ty.k in ('double', 'float'):
            return RV(fresh('undef', R))
        if ty.k == 'ptr':
            return PV(fresh('undefo', I), fresh('undefi', I), None)
        if ty.k in ('struct', 'vec', 'arr'):
            els = ty.el if ty.k == 'struct' else [ty.el] * ty.n
            return AV([self.undef(e) for e in els])
        return UV()

    def global_ptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FV(name)
        g = self.gobj.get(name)
        if g is None:
            const, ty, init, dbg = self.mod.globals[name]
            oid = 10 + len(self.gobj)
            if oid > 900:
                raise Unsupported('too many globals')
            T = None
            if dbg:
                k, d = self.mod.mdfields(dbg)
                if k == 'DIGlobalVariableExpression':
                    k, d = self.mod.mdfields(d['var'].lstrip('!'))
                T = self.types.get(d['type'])
            if T is None:
                T = self.lt_to_ct(ty)
            n = 1
            el = T
            inner = []
            while el.k == 'arr':
                n *= el.n
                el = el.el
            self.register(el)
            g = PV(z3.IntVal(oid), z3.IntVal(0), el)
            self.gobj[name] = g
            self.assume_global(z3.And(cnt(g.o) == max(n, 1), z3.Not(z3.Select(self.base(FREED), g.o, z3.IntVal(0), z3.IntVal(0)) != 0)))
            if const and init is not None:
                self.init_global(g, el, ty, init)
        return g

    def init_global(self, g, el, ty, init):
        flat = []

        def walk(t, v):
            if t.k == 'arr':
                if v[0] == 'cstr':
                    flat.append(None)
                    return
                for q in range(t.n):
                    if v[0] == 'zero':
                        walk(t.el, ('zero',))
                    else:
                        walk(t.el, v[1][q][1])
            else:
                flat.append((t, v))
        walk(ty, init)
        if any(x is None for x in flat) or len(flat) > 4000:
            return
        for q, (t, v) in enumerate(flat):
            if t.k == 'int' and el.k == 'int':
                c = 0 if v[0] == 'zero' else v[1]
                if not el.signed and c < 0:
                    c += 1 << (8 * el.size)
                self.assume_global(z3.Select(self.base((el.key(), 0, 'int')), g.o, z3.IntVal(q), z3.IntVal(0)) == c)
            elif t.k == 'double' and el.k == 'real':
                c = z3.RealVal(0) if v[0] == 'zero' else fpconst(v[1], t)
                self.assume_global(z3.Select(self.base((el.key(), 0, 'real')), g.o, z3.IntVal(q), z3.IntVal(0)) == c)

    def boolv(self, v):
        if isinstance(v, BV1):
            return v.t
        if isinstance(v, IV):
            return v.t != 0
        raise Unsupported('bool of %r' % v)

    # -------------------------------------------------- instructions
    def step(self, st, ins):
        op = ins.op
        if op == 'call':
            return self.do_call(st, ins)
        if op == 'load':
            p = self.val(st, ins.a[0], LT('ptr'))
            if not isinstance(p, PV):
                raise Unsupported('load from %r' % p)
            st.regs[ins.res] = self.do_load(st, p, ins.ty, ins)
            return
        if op == 'store':
            v = self.val(st, ins.a[0], ins.ty)
            p = self.val(st, ins.a[1], LT('ptr'))
            self.do_store(st, p, ins.ty, v, ins)
            return
        if op == 'gep':
            args = [self.val(st, x, t) for x, t in zip(ins.a, ins.x)]
            st.regs[ins.res] = self.do_gep(st, ins, args)
            return
        if op == 'alloca':
            T = self.types.local_hint(self.f, ins.res)
            if T is None:
                T = self.lt_to_ct(ins.ty)
            n = 1
            el = T
            c = self.val(st, ins.a[0], LT('int', 32))
            if el.k == 'arr' and num(simp(c.us())) != 1:     # variable-length array: the count is an operand
                el = el.el
            while el.k == 'arr':
                n *= el.n
                el = el.el
            st.regs[ins.res] = self.new_object(st, el, simp(c.us() * n), zero=False)
            return
        if op == 'icmp':
            st.regs[ins.res] = BV1(self.icmp(st, ins))
            return
        if op == 'fcmp':
            a, b = self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty)
            pr = ins.x
            t = {'eq': lambda: a.t == b.t, 'ne': lambda: a.t != b.t, 'gt': lambda: a.t > b.t, 'ge': lambda: a.t >= b.t,
                 'lt': lambda: a.t < b.t, 'le': lambda: a.t <= b.t}.get(pr[1:])
            if pr == 'ord':
                r = z3.BoolVal(True)
            elif pr == 'uno':
                r = z3.BoolVal(False)
            elif t is None:
                r = z3.BoolVal(pr == 'true')
            else:
                r = t()
            st.regs[ins.res] = BV1(r)
            return
        if op == 'select':
            c = self.boolv(self.val(st, ins.a[0], LT('int', 1)))
            a, b = self.val(st, ins.a[1], ins.ty), self.val(st, ins.a[2], ins.ty)
            st.regs[ins.res] = self.ite(c, a, b)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            a = [self.val(st, x, ins.ty) for x in ins.a]

            def f1(op, *x):
                if op == 'fneg':
                    return RV(-x[0].t)
                p, q = x[0].t, x[1].t
                if op == 'fadd':
                    return RV(p + q)
                if op == 'fsub':
                    return RV(p - q)
                if op == 'fmul':
                    return RV(p * q)
                return RV(p / q)
            if isinstance(a[0], AV):
                st.regs[ins.res] = AV([f1(op, *z) for z in zip(*[x.els for x in a])])
            else:
                st.regs[ins.res] = f1(op, *a)
            return
        if op in ('extractvalue',):
            v = self.val(st, ins.a[0], ins.ty)
            for k in ins.x:
                v = v.els[k]
            st.regs[ins.res] = v
            return
        if op == 'insertvalue':
            v = self.val(st, ins.a[0], ins.ty)
            e = self.val(st, ins.a[1], ins.x[0])
            if len(ins.x[1]) != 1:
                raise Unsupported('insertvalue')
            els = list(v.els)
            els[ins.x[1][0]] = e
            st.regs[ins.res] = AV(els)
            return
        if op == 'extractelement':
            v = self.val(st, ins.a[0], ins.ty)
            k = num(self.val(st, ins.a[1], LT('int', 64)).t)
            st.regs[ins.res] = v.els[k]
            return
        if op == 'insertelement':
            v = self.val(st, ins.a[0], ins.ty)
            e = self.val(st, ins.a[1], ins.x)
            k = num(self.val(st, ins.a[2], LT('int', 64)).t)
            els = list(v.els)
            els[k] = e
            st.regs[ins.res] = AV(els)
            return
        if op == 'freeze':
            st.regs[ins.res] = self.val(st, ins.a[0], ins.ty)
            return
        if op in CASTOPS or op in ARITH:
            args = [self.val(st, x, ins.x if op in CASTOPS else ins.ty) for x in ins.a]
            st.regs[ins.res] = self.arith(st, ins, args)
            return
        raise Unsupported('instr %s' % (ins.x if op == 'unsupported' else op))

    def ite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, UV):
            return b
        if isinstance(b, UV):
            return a
        if isinstance(a, BV1):
            return BV1(z3.If(c, a.t, b.t))
        if isinstance(a, IV):
            s = a.s if not a.nn else b.s
            return IV(z3.If(c, a.as_(s), b.as_(s)), a.b, s, a.nn and b.nn)
        if isinstance(a, RV):
            return RV(z3.If(c, a.t, b.t))
        if isinstance(a, PV):
            if num(a.o) == 0 and a.T is None:
                a = PV(a.o, a.i, b.T, b.off, b.dyn)
            if num(b.o) == 0 and b.T is None:
                b = PV(b.o, b.i, a.T, a.off, a.dyn)
            if a.off != b.off or a.dyn != b.dyn or (a.T is not None and b.T is not None and a.T.key() != b.T.key()):
                raise Unsupported('select of differently typed pointers')
            return PV(z3.If(c, a.o, b.o), z3.If(c, a.i, b.i), a.T or b.T, a.off, a.dyn)
        raise Unsupported('ite')

    def icmp(self, st, ins):
        a, b = self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty)
        pr = ins.x
        if isinstance(a, PV) or isinstance(b, PV):
            if isinstance(a, FV) or isinstance(b, FV):
                r = z3.BoolVal(False)
            elif num(a.o) == 0 and a.T is None:
                r = b.o == 0
            elif num(b.o) == 0 and b.T is None:
                r = a.o == 0
            else:
                if a.off == b.off and not a.dyn and not b.dyn:
                    r = z3.And(a.o == b.o, a.i == b.i)
                else:
                    raise Unsupported('pointer comparison')
            if pr == 'eq':
                return r
            if pr == 'ne':
                return z3.Not(r)
            raise Unsupported('pointer order')
        if isinstance(a, BV1):
            r = a.t == b.t
            if pr == 'eq':
                return r
            if pr == 'ne':
                return z3.Not(r)
            ai, bi = z3.If(a.t, 1, 0), z3.If(b.t, 1, 0)
            return {'ugt': ai > bi, 'ult': ai < bi, 'uge': ai >= bi, 'ule': ai <= bi}[pr]
        if pr in ('eq', 'ne'):
            s = b.s if a.nn else (a.s if (b.nn or a.s == b.s) else False)
            if a.nn and b.nn:
                s = a.s
            if not a.nn and num(b.t) is not None:
                s = a.s
            if not b.nn and num(a.t) is not None:
                s = b.s
            r = a.as_(s) == b.as_(s)
            return r if pr == 'eq' else z3.Not(r)
        s = pr[0] == 's'
        x, y = a.as_(s), b.as_(s)
        return {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pr[1:]]

    def wrapu(self, t, n):
        m = 1 << n
        k = num(simp(t))
        if k is not None:
            return z3.IntVal(k % m)
        return t

    def arith(self, st, ins, args):
        op = ins.op
        if op in CASTOPS:
            return self.cast(st, ins, args[0])
        a, b = args
        if isinstance(a, AV):
            raise Unsupported('vector int op')
        if isinstance(a, BV1):
            if op == 'and':
                return BV1(z3.And(a.t, b.t))
            if op == 'or':
                return BV1(z3.Or(a.t, b.t))
            if op in ('xor', 'add', 'sub'):
                return BV1(z3.Xor(a.t, b.t))
            raise Unsupported('i1 ' + op)
        n = a.b
        m = 1 << n
        if op in ('lshr', 'shl', 'and', 'or'):
            r = piece_op(op, a, b, n)
            if r is not None:
                return r
        if op in ('add', 'sub', 'mul'):
            fn = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
            if 'nsw' in ins.flags and 'nuw' not in ins.flags:
                t = simp(fn(a.sg(), b.sg()))
                if num(t) is None and self.con.overflow:
                    self.oblige(st, 'no signed overflow', z3.And(t >= -(m // 2), t < m // 2), ins.line)
                elif num(t) is None:
                    self.res.assumptions.add('signed integer overflow does not occur (arithmetic treated as mathematical)')
                    self.assume(z3.And(t >= -(m // 2), t < m // 2))
                return IV(t, n, True, a.nn and b.nn and op == 'add' and False)
            x, y = a.us(), b.us()
            ny = num(y)
            if op == 'add' and ny is not None and ny >= m // 2:
                # x + (m - k)  ==  x - k
                kk = m - ny
                t = simp(z3.If(x >= kk, x - kk, x - kk + m))
                return IV(t, n, False)
            t = simp(fn(x, y))
            if num(t) is not None:
                return IV(num(t) % m, n, False)
            if op == 'add':
                return IV(simp(z3.If(t < m, t, t - m)), n, False)
            if op == 'sub':
                return IV(simp(z3.If(t >= 0, t, t + m)), n, False)
            return IV(z3.If(t < m, t, t % m), n, False)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            s = op[0] == 's'
            x, y = a.as_(s), b.as_(s)
            if num(y) is None:
                self.oblige(st, 'division by zero', y != 0, ins.line)
            elif num(y) == 0:
                self.oblige(st, 'division by zero', z3.BoolVal(False), ins.line)
            if s:
                c = num(y)
                if c is not None and c > 0:
                    q = z3.If(x >= 0, x / y, -((-x) / y))
                    return IV(simp(q if op == 'sdiv' else x - q * y), n, True)
                # variable: nonnegative case precise, otherwise uninterpreted
                self.mod_axioms(x, y)
                qq = z3.If(z3.And(x >= 0, y > 0), (udivf(x, y) if op == 'sdiv' else umod(x, y)), fresh('sdivrem', I))
                return IV(qq, n, True)
            if num(y) is not None:
                return IV(simp(x / y if op == 'udiv' else x % y), n, False)
            self.mod_axioms(x, y)
            return IV(udivf(x, y) if op == 'udiv' else umod(x, y), n, False)
        if op == 'shl':
            k = num(b.us())
            if k is None:
                return self.shift_var(st, 'shl', a, b)
            t = simp(a.us() * (1 << k))
            if num(t) is not None:
                return IV(num(t) % m, n, False)
            if 'nsw' in ins.flags:
                t = simp(a.sg() * (1 << k))
                return IV(t, n, True)
            return IV(z3.If(t < m, t, t % m), n, False)
        if op == 'lshr':
            k = num(b.us())
            if k is None:
                return self.shift_var(st, 'lshr', a, b)
            return IV(simp(a.us() / (1 << k)), n, False, k > 0)
        if op == 'ashr':
            k = num(b.us())
            if k is None:
                raise Unsupported('ashr var')
            return IV(simp(a.sg() / (1 << k)), n, True)
        if op in ('and', 'or', 'xor'):
            x, y = a.us(), b.us()
            nx, ny = num(x), num(y)
            if nx is not None and ny is None:
                x, y, nx, ny = y, x, ny, nx
                a, b = b, a
            if nx is not None and ny is not None:
                v = {'and': nx & ny, 'or': nx | ny, 'xor': nx ^ ny}[op]
                return IV(v, n, False)
            if op == 'and' and ny is not None and (ny & (ny + 1)) == 0:
                return IV(simp(x % (ny + 1)), n, False, ny < m // 2)
            if op == 'or':
                for u, w in ((x, y), (y, x)):
                    k = pow2_multiple(w)
                    if k and self.prove(u < k, to=200):
                        return IV(simp(u + w), n, False)
            if op == 'xor' and ny == m - 1:
                return IV(simp(m - 1 - x), n, False)
            f = self.bitop(op, n)
            t = f(x, y)
            self.bit_axioms(op, n, x, y, t)
            return IV(t, n, False)
        raise Unsupported('arith ' + op)

    def bitop(self, op, n):
        return z3.Function('bit_%s%d' % (op, n), I, I, I)

    def bit_axioms(self, op, n, x, y, t):
        if self.con.opts.get('bits'):       # bitf(v,j): bit j of the non-negative number v
            j = z3.Int('j')
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
            self.assume(z3.ForAll([j], z3.Implies(j >= 0, bitf(t, j) == f(bitf(x, j), bitf(y, j))), patterns=[bitf(t, j)]))
            self.assume(z3.ForAll([j], z3.Implies(j >= 0, z3.Not(bitf(z3.IntVal(0), j))), patterns=[bitf(z3.IntVal(0), j)]))
            for u, w in ((x, y), (y, x)):
                if z3.is_app(w) and w.decl().name() == 'pow2':
                    k = w.arg(0)
                    self.assume(z3.ForAll([j], z3.Implies(j >= 0, bitf(w, j) == (j == k)), patterns=[bitf(w, j)]))
                    if op == 'and':
                        self.assume((t != 0) == bitf(u, k))
        self.assume(z3.And(t >= 0, t < (1 << n)))
        if op == 'and':
            self.assume(z3.And(t <= x, t <= y))
            self.assume(z3.Implies(z3.And(x >= 0, x <= 1, y >= 0, y <= 1), t == z3.If(z3.And(x == 1, y == 1), 1, 0)))
        if op == 'or':
            self.assume(z3.And(t >= x, t >= y, t <= x + y))
            self.assume(z3.Implies(z3.And(x >= 0, x <= 1, y >= 0, y <= 1), t == z3.If(z3.Or(x == 1, y == 1), 1, 0)))
            self.assume(z3.Implies(x == 0, t == y))
            self.assume(z3.Implies(y == 0, t == x))
        if op == 'xor':
            self.assume(z3.Implies(z3.And(x >= 0, x <= 1, y >= 0, y <= 1), t == z3.If(x != y, 1, 0)))
            self.assume(z3.Implies(x == y, t == 0))
            self.assume(z3.Implies(x == 0, t == y))
            self.assume(z3.Implies(y == 0, t == x))

    def shift_var(self, st, op, a, b):
        """shift by a variable amount via pow2 spec function"""
        x, k = a.us(), b.us()
        n = a.b
        self.oblige(st, 'shift amount in range', z3.And(k >= 0, k < n))
        self.pow2_axioms(k)
        p = pow2(k)
        if op == 'shl':
            if num(x) == 1:
                return IV(p, n, False)
            t = x * p
            return IV(z3.If(t < (1 << n), t, t % (1 << n)), n, False)
        return IV(x / p, n, False)

    def pow2_axioms(self, k):
        self.assume(z3.Implies(z3.And(k >= 0, k < 64), z3.Or(*[z3.And(k == q, pow2(k) == (1 << q)) for q in range(64)])))

    def mod_axioms(self, x, y):
        r = umod(x, y)
        q = udivf(x, y)
        if self.con.opts.get('mod'):
            self.assume(z3.Implies(z3.And(x >= 0, y > 0), r == x % y))
        self.assume(z3.Implies(z3.And(x >= 0, y > 0), z3.And(
            r >= 0, r < y, r <= x, q >= 0, q <= x,
            z3.Implies(x < y, z3.And(r == x, q == 0)),
            z3.Implies(z3.And(x >= y, x < 2 * y), z3.And(r == x - y, q == 1)),
            z3.Implies(z3.And(x >= 2 * y, x < 3 * y), z3.And(r == x - 2 * y, q == 2)),
            z3.Implies(y == 1, z3.And(r == 0, q == x)))))

    def cast(self, st, ins, a):
        op = ins.op
        t = ins.ty
        if op == 'zext':
            if isinstance(a, BV1):
                return IV(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)), t.n, False, True)
            return IV(a.us(), t.n, False, True, [(0, a.b, a)] if t.n == 64 and a.b in (8, 16, 32) else None)
        if op == 'sext':
            if isinstance(a, BV1):
                return IV(z3.If(a.t, z3.IntVal(-1), z3.IntVal(0)), t.n, True)
            return IV(a.sg(), t.n, True, a.nn)
        if op == 'trunc':
            if t.n == 1:
                x = a.t
                b = as_bool_int(x)
                if b is not None:
                    return BV1(b)
                return BV1(simp(a.us() % 2 == 1))
            m = 1 << t.n
            x = a.t
            if a.pc is not None:
                lowp = [q for q in a.pc if q[0] < t.n]
                if all(q[0] + q[1] <= t.n for q in lowp):
                    return from_pieces(lowp, t.n)
            n = num(x)
            if n is not None:
                return IV(n % m, t.n, False)
            b = as_bool_int(x)
            if b is not None:
                return IV(x, t.n, False, True)
            if a.s:
                return IV(z3.If(z3.And(x >= -(m // 2), x < m // 2), x, ((x + m // 2) % m) - m // 2), t.n, True)
            return IV(z3.If(x < m, x, x % m), t.n, False)
        if op in ('sitofp', 'uitofp'):
            if isinstance(a, BV1):
                return RV(z3.If(a.t, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0)))
            return RV(z3.ToReal(a.sg() if op == 'sitofp' else a.us()))
        if op in ('fptosi', 'fptoui'):
            x = a.t
            tr = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            n = t.n
            if op == 'fptosi':
                self.oblige(st, 'float to int in range', z3.And(tr >= -(1 << (n - 1)), tr < (1 << (n - 1))), ins.line)
                return IV(tr, n, True)
            self.oblige(st, 'float to int in range', z3.And(tr >= 0, tr < (1 << n)), ins.line)
            return IV(tr, n, False)
        if op in ('fpext', 'fptrunc'):
            self.res.assumptions.add('float/double conversions treated as exact')
            return a
        if op == 'ptrtoint' and isinstance(a, PV):
            raise Unsupported('ptrtoint')
        if op == 'bitcast':
            return a
        raise Unsupported('cast ' + op)

    # -------------------------------------------------- memory
    def do_gep(self, st, ins, args):
        p = args[0]
        if not isinstance(p, PV):
            raise Unsupported('gep base')
        sty = ins.ty
        idx = args[1:]
        # first index
        k = idx[0].sg()
        size = self.mod.sizeof(sty)
        if num(k) != 0:
            p = self.ptr_add(p, sty, size, k)
        elif p.T is None:
            try:
                T = self.lt_to_ct(sty)
                if T.k == 'arr':
                    while T.k == 'arr':
                        T = T.el
                p = PV(p.o, p.i, T, p.off, p.dyn)
                self.register(T)
            except Unsupported:
                pass
        # array objects: an alloca/global [N x T] is an object of N elements of T
        t = sty
        for q, ix in enumerate(idx[1:]):
            if t.k in ('named', 'struct'):
                fi = num(ix.us())
                off, ft = self.mod.field_off(t, fi)
                p = PV(p.o, p.i, p.T, p.off + off, p.dyn)
                t = ft
            elif t.k == 'arr':
                kk = ix.sg()
                p = self.ptr_add(p, t.el, self.mod.sizeof(t.el), kk)
                t = t.el
            else:
                raise Unsupported('gep into %r' % t)
        return p

    def ptr_add(self, p, lt, size, k):
        """p + k elements of an LLVM type with the given size"""
        n = num(k)
        if n == 0:
            return p
        if p.T is None:
            T = self.lt_to_ct(lt)
            while T.k == 'arr':
                size0 = T.size
                T = T.el
                k = simp(k * (size0 // T.size))
            self.register(T)
            return PV(p.o, simp(p.i + k), T, p.off, p.dyn)
        ts = p.T.size
        # still at element granularity (offset 0 and size multiple of element size): move index
        if p.off == 0 and not p.dyn and ts and size % ts == 0:
            return PV(p.o, simp(p.i + k * (size // ts)), p.T)
        # pointer to the start of an inner array of the element, or interior
        if n is not None:
            return PV(p.o, p.i, p.T, p.off + n * size, p.dyn)
        return PV(p.o, p.i, p.T, p.off, p.dyn + ((size, k),))

    def access(self, st, p, lt, ins, check=True):
        """find the leaf accessed -> (leaf CT, key, o,i,j) and emit safety obligations"""
        size = self.mod.sizeof(lt)
        lk = {'int': 'int', 'double': 'real', 'float': 'real', 'ptr': 'ptr'}.get(lt.k)
        if lk is None:
            raise Unsupported('access of %r' % lt)
        T = p.T
        if T is None or T.k == 'void':
            T = self.lt_to_ct(lt)
            self.register(T)
            p = PV(p.o, p.i, T, p.off, p.dyn)
        self.register(T)
        li = self.leafinfo(p, size, lk)
        if li is None:
            raise Unsupported('access %r at +%d%s of %r' % (lt, p.off, '*' if p.dyn else '', T))
        off, stride, count, leaf = li
        key, o, i, j = self.resolve(p, leaf)
        if check:
            line = ins.line if ins is not None else None
            okkey = (o.get_id(), i.get_id(), st.heap.get(FREED).get_id() if FREED in st.heap else 0)
            if okkey not in st.ok:
                self.oblige(st, 'memory safety', z3.And(o > 0, i >= 0, i < cnt(o), z3.Not(
                    z3.Select(self.hget(st, FREED), o, z3.IntVal(0), z3.IntVal(0)) != 0)), line)
                st.ok.add(okkey)
            if num(j) is None:
                self.oblige(st, 'inner index in range', z3.And(j >= 0, j < count), line)
            elif not (0 <= num(j) < count):
                self.oblige(st, 'inner index in range', z3.BoolVal(False), line)
        return leaf, key, o, i, j

    def do_load(self, st, p, lt, ins, check=True):
        if lt.k == 'vec' or lt.k == 'struct':
            els = [lt.el] * lt.n if lt.k == 'vec' else lt.el
            out = []
            off = 0
            for e in els:
                s, al = self.mod.layout(e)
                off = (off + al - 1) // al * al
                out.append(self.do_load(st, PV(p.o, p.i, p.T, p.off + off, p.dyn), e, ins, check))
                off += s
            return AV(out)
        if lt.k == 'int' and lt.n in (16, 32, 64) and p.T is not None and self.leafinfo(p, lt.n // 8, 'int') is None:
            tiles = self.tiles(p, lt.n // 8)
            if tiles:
                pc = []
                for off, lf in tiles:
                    v = self.do_load(st, PV(p.o, p.i, p.T, p.off + off, p.dyn), LT('int', lf.size * 8), ins, check)
                    pc.append((8 * off, lf.size * 8, v))
                return from_pieces(pc, lt.n)
        leaf, key, o, i, j = self.access(st, p, lt, ins, check)
        if leaf.k == 'ptr':
            T = leaf.el
            T = T if T is not None and T.k not in ('void', 'fn') else None

            oo = mrd(self.hget(st, (key[0], key[1], 'pobj')), o, i, j)
            ii = mrd(self.hget(st, (key[0], key[1], 'pidx')), o, i, j) if (key[0], key[1]) in FULLPTR else z3.IntVal(0)
            if check:
                self.assume(z3.And(oo >= 0, oo <= st.ctr))
            if T is None and ins is not None:
                T = self.types.local_hint(self.f, ins.res) if ins.res else None
                T = T if T is not None and T.k != 'void' else None
            if T is not None and T.k == 'arr':
                while T.k == 'arr':
                    T = T.el
            return PV(oo, ii, T)
        v = mrd(self.hget(st, key), o, i, j)
        if leaf.k == 'real':
            return RV(v)
        if lt.n == 1:
            return BV1(v != 0)
        if check and num(v) is None:
            r = self.key_range(key)
            if r:
                self.assume(z3.And(r[0] <= v, v <= r[1]))
        return IV(v, lt.n, leaf.signed, leaf.isbool)

    def do_store(self, st, p, lt, v, ins):
        if isinstance(v, AV):
            els = [lt.el] * lt.n if lt.k in ('vec', 'arr') else lt.el
            off = 0
            for e, x in zip(els, v.els):
                s, al = self.mod.layout(e)
                off = (off + al - 1) // al * al
                self.do_store(st, PV(p.o, p.i, p.T, p.off + off, p.dyn), e, x, ins)
                off += s
            return
        if lt.k == 'int' and lt.n in (16, 32, 64) and p.T is not None and self.leafinfo(p, lt.n // 8, 'int') is None:
            tiles = self.tiles(p, lt.n // 8)
            if tiles:
                u = v.us()
                pcs = {q[0]: q for q in (v.pc or [])}
                for off, lf in tiles:
                    if v.pc is not None and (8 * off) in pcs and pcs[8 * off][1] == lf.size * 8:
                        self.do_store(st, PV(p.o, p.i, p.T, p.off + off, p.dyn), LT('int', lf.size * 8), pcs[8 * off][2], ins)
                        continue
                    piece = simp((u / (1 << (8 * off))) % (1 << (8 * lf.size)))
                    self.do_store(st, PV(p.o, p.i, p.T, p.off + off, p.dyn), LT('int', lf.size * 8), IV(piece, lf.size * 8, False), ins)
                return
        leaf, key, o, i, j = self.access(st, p, lt, ins)
        if leaf.k == 'ptr':
            if isinstance(v, FV):
                raise Unsupported('function pointer store')
            if v.off or v.dyn:
                raise Unsupported('store of interior pointer')
            T = leaf.el
            if v.T is not None and T is not None and T.k not in ('void', 'fn') and num(v.o) != 0 and v.T.key() != T.key():
                raise Unsupported('store of %r pointer into %r slot' % (v.T, T))
            if v.T is None and T is not None and T.k not in ('void', 'fn'):
                self.typed_late(st, v, T)
            full = (key[0], key[1]) in FULLPTR
            if num(v.i) != 0 and not full:
                self.oblige(st, 'stored pointer is the start of its block (or NULL)', z3.Or(v.o == 0, v.i == 0), ins.line if ins is not None else None)
            for kd, x in (('pobj', v.o), ('pidx', v.i))[:2 if full else 1]:
                kk = (key[0], key[1], kd)
                st.heap[kk] = z3.Store(self.hget(st, kk), o, i, j, x)
            return
        if isinstance(v, RV):
            x = v.t
        elif isinstance(v, BV1):
            x = z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        elif isinstance(v, IV):
            x = v.as_(leaf.signed)
        else:
            raise Unsupported('store %r' % v)
        if has_ite(x):   # named, so that terms over the heap can serve as patterns
            y = fresh('sv', x.sort())
            self.assume(y == x)
            x = y
        st.heap[key] = z3.Store(self.hget(st, key), o, i, j, x)

    def tiles(self, p, nbytes):
        out = [(a, lt) for a, sz, _, lt in self.leaf_at(p, nbytes)]
        if not out or any(lt.k != 'int' for _, lt in out):
            return None
        return out

    def coerce_parts(self, ct, params, k):
        """LLVM parameters that carry the by-value struct ct, starting at params[k] -> list of (offset, LT)"""
        need = ct.size
        off = 0
        out = []
        while off < need:
            lt = params[k + len(out)]
            out.append((off, lt))
            off += 8
        return out

    def typed_late(self, st, v, T):
        """an untyped allocation receives its element type"""
        self.register(T)
        for q, (o, nbytes, snap, zero, done) in enumerate(st.zero):
            if o.eq(v.o) and not done:
                self.size_fact(o, nbytes, T)
                if zero:
                    self.zero_fact(o, snap, T)
                st.zero[q] = (o, nbytes, snap, zero, True)

    def size_fact(self, o, nbytes, T):
        s = T.size
        nb = simp(nbytes)
        self.assume(z3.And(cnt(o) * s <= nb, nb < (cnt(o) + 1) * s))
        return

    def zero_fact(self, o, snap, T, upto=None):
        i, j = z3.Ints('i j')
        for off, stride, count, lt in T.leaves():
            for kd in self.kinds(T, off, lt):
                key = (T.key(), off, kd)
                h = snap.get(key)
                if h is None:
                    h = self.base(key)
                s = z3.Select(h, o, i, j)
                self.assume(z3.ForAll([i, j], s == 0, patterns=[s]))

    def new_object(self, st, T, count, zero=False, nbytes=None):
        o = fresh('obj', I)
        self.assume(o == st.ctr + 1)
        st.ctr = o
        self.rank += 1
        OBJRANK[o.get_id()] = (self.rank, o)
        self.assume(z3.Not(z3.Select(self.hget(st, FREED), o, z3.IntVal(0), z3.IntVal(0)) != 0))
        if T is not None:
            self.register(T)
            if count is not None:
                self.assume(cnt(o) == count)
            else:
                self.size_fact(o, nbytes, T)
            if zero:
                self.zero_fact(o, st.heap, T)
        else:
            st.zero.append((o, nbytes, dict(st.heap), zero, False))
        return PV(o, z3.IntVal(0), T)

    def infer_T(self, reg):
        """static element type of an untyped pointer register, from debug info and uses"""
        if reg in self.type_memo.get(self.f.name, {}):
            return self.type_memo[self.f.name][reg]
        T = self.types.local_hint(self.f, reg)
        if T is not None and (T.k == 'void' or T.k == 'fn'):
            T = None
        if T is None:
            for bn in self.f.order:
                for ins in self.f.blocks[bn].ins:
                    if T is not None:
                        break
                    if ins.op == 'store' and ins.a[0] == ('reg', reg) and ins.a[1][0] == 'reg':
                        d = self.defblk.get(ins.a[1][1])
                        if d and d[1].op == 'gep':
                            g = d[1]
                            T = self.field_ptr_T(g)
                        elif d and d[1].op == 'alloca':
                            pass
                    elif ins.op == 'gep' and ins.a[0] == ('reg', reg):
                        try:
                            T = self.lt_to_ct(ins.ty)
                        except Unsupported:
                            T = None
                    elif ins.op == 'phi' and any(v == ('reg', reg) for v, _ in ins.x):
                        T2 = self.types.local_hint(self.f, ins.res)
                        if T2 is not None and T2.k not in ('void', 'fn'):
                            T = T2
                    elif ins.op == 'store' and ins.a[1] == ('reg', reg):
                        try:
                            T = self.lt_to_ct(ins.ty) if ins.ty.k != 'ptr' else CT('ptr', size=8, el=CT('void'))
                        except Unsupported:
                            pass
                    elif ins.op == 'call' and ins.x[0] == 'glob' and ins.x[1] in self.mod.funcs:
                        for q, (t, a, at) in enumerate(ins.a):
                            if a == ('reg', reg):
                                ft = self.types.func_types(self.mod.funcs[ins.x[1]])
                                if ft and q < len(ft[1]) and ft[1][q].k == 'ptr' and ft[1][q].el.k not in ('void', 'fn'):
                                    T = ft[1][q].el
        while T is not None and T.k == 'arr':
            T = T.el
        self.type_memo.setdefault(self.f.name, {})[reg] = T
        return T

    def field_ptr_T(self, g):
        """pointee type of the pointer field addressed by gep g"""
        try:
            T = self.lt_to_ct(g.ty)
        except Unsupported:
            return None
        off = 0
        t = g.ty
        for ix in g.a[2:]:
            if t.k in ('named', 'struct'):
                if ix[0] != 'int':
                    return None
                o, ft = self.mod.field_off(t, ix[1])
                off += o
                t = ft
            elif t.k == 'arr':
                t = t.el
        for lo, stride, count, lt in T.leaves():
            if lo <= off < lo + stride * count and lt.k == 'ptr':
                return lt.el if lt.el.k not in ('void', 'fn') else None
        return None

    # -------------------------------------------------- calls
    def do_call(self, st, ins):
        if ins.x[0] == 'reg':
            fv = st.regs.get(ins.x[1])
            if isinstance(fv, FV):
                name = fv.name
            else:
                h = self.con.hook
                if h is not None:
                    args = [self.val(st, a, t) if t.k != 'metadata' else None for t, a, at in ins.a]
                    if h(self, st, ins, args, fv):
                        return
                raise Unsupported('indirect call')
        elif ins.x[0] == 'glob':
            name = ins.x[1]
        else:
            raise Unsupported('asm')
        self.res.calls.add(name)
        if name in self.contracts and (name != self.f.name or self.con.opts.get('recursive')):
            return self.call_contract(st, ins, name)
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name)
        if name in self.builtins:
            args = [self.val(st, a, t) if t.k != 'metadata' else None for t, a, at in ins.a]
            return self.builtins[name](self, st, ins, args)
        raise Unsupported('call to %s (no contract)' % name)

    def call_contract(self, st, ins, name):
        con = self.contracts[name]
        f2 = self.mod.funcs.get(name)
        if f2 is not None:
            rct, pcts = self.types.func_types(f2)
        elif con.argtypes is not None:
            rct = self.types.named(con.ret) if isinstance(con.ret, str) else (con.ret or CT('void'))
            pcts = [self.cparse(x) for x in con.argtypes]
        else:
            d = self.decl_types(name)
            if d is None:
                raise Unsupported('no prototype for ' + name)
            rct, pcts = d
        args = [self.val(st, a, t) for t, a, at in ins.a]
        sret = None
        if ins.a and 'sret' in ins.a[0][2]:
            sret = args[0]
            args = args[1:]
        lts = [t for t, a, at in ins.a][1 if sret is not None else 0:]
        ats = [at for t, a, at in ins.a][1 if sret is not None else 0:]
        nargs = []
        q = 0
        for ct in pcts:
            if q >= len(args):
                break
            if ct.k == 'struct' and not (lts[q].k == 'ptr' and 'byval' in ats[q]):
                parts = self.coerce_parts(ct, lts, q)
                p = self.new_object(st, ct, z3.IntVal(1))
                for off, plt in parts:
                    self.do_store(st, PV(p.o, p.i, ct, off), plt, args[q], ins)
                    q += 1
                nargs.append(p)
            else:
                nargs.append(args[q])
                q += 1
        args = nargs
        vals = []
        for v, ct in zip(args, pcts):
            if isinstance(v, PV) and v.T is None and ct.k == 'ptr' and ct.el.k not in ('void', 'fn'):
                self.typed_late(st, v, ct.el)
                v = PV(v.o, v.i, ct.el, v.off, v.dyn)
            vals.append(v)
        oldm = Mem(self, dict(st.heap), st.ctr)
        c = Ctx(self, con, vals, pcts, oldm, oldm)
        if con.assumed:
            self.res.assumptions.add('assumed contract: ' + name)
        # precondition
        for k, r in enumerate(con.requires(c)):
            lab, g = r if isinstance(r, tuple) else ('%d' % k, r)
            self.oblige(st, 'call %s: precondition %s' % (name, lab), g, ins.line)
        if con.abort is not None:
            # the callee may stop the process only where the caller may
            ac = con.abort(c)
            if self.con.abort is not None:
                me = self.con.abort(Ctx(self, self.con, self.argvals, self.pcts, self.entry_mem, oldm))
                self.oblige(st, 'call %s: stops the process only when allowed' % name, z3.Implies(ac, me), ins.line)
                self.assume(z3.Not(ac))
            else:
                self.oblige(st, 'call %s: does not stop the process' % name, z3.Not(ac), ins.line)
        regs = list(con.modifies(c))
        ctr_before = st.ctr
        # frame
        if sret is not None:
            regs.append(('ref', RefView(oldm, sret, rct)))
        if con.frees:
            fr = con.frees(c)
            for p in fr:
                may = isinstance(p, tuple)
                if may:
                    p = p[1]
                if callable(p) and not isinstance(p, PtrView):
                    h = self.hget(st, FREED)
                    h2 = fresh('FREED', hsort('int'))
                    o, i, j = z3.Ints('o i j')
                    s = z3.Select(h2, o, i, j)
                    self.assume(z3.ForAll([o, i, j], z3.And(z3.Implies(z3.Not(p(o)), s == z3.Select(h, o, i, j)), z3.BoolVal(True) if may else z3.Implies(p(o), s == 1)), patterns=[s]))
                    st.heap[FREED] = h2
                    continue
                st.heap[FREED] = z3.Store(self.hget(st, FREED), p.pv.o, z3.IntVal(0), z3.IntVal(0), z3.IntVal(1))
        simple = [r for r in regs if r[0] == 'ref']
        rest = [r for r in regs if r[0] != 'ref']
        self.con_keys = list(st.heap)
        for key in sorted(self.region_keys(rest)):
            h = self.hget(st, key)
            h2 = fresh('H:%s:%d:%s' % key, hsort(key[2]))
            o, i, j = z3.Ints('o i j')
            s = z3.Select(h2, o, i, j)
            ex = self.region_pred(rest, key, o, i, j)
            self.assume(z3.ForAll([o, i, j], z3.Implies(z3.Not(ex), s == z3.Select(h, o, i, j)), patterns=[s]))
            st.heap[key] = h2
            self.havoc_axioms(h2, key)
        for r in simple:
            for k, o, i, j in self.ref_locs(r[1]):
                for kk in [k] + ([(k[0], k[1], 'pidx')] if k[2] == 'pobj' and (k[0], k[1]) in FULLPTR else []):
                    v = fresh('m', R if kk[2] == 'real' else I)
                    rg = self.key_range(kk)
                    if rg:
                        self.assume(z3.And(rg[0] <= v, v <= rg[1]))
                    st.heap[kk] = z3.Store(self.hget(st, kk), o, i, j, v)
        if con.allocs:
            c2 = fresh('ctr', I)
            self.assume(c2 >= st.ctr)
            st.ctr = c2
        # result
        ret = None
        if sret is not None:
            ret = sret
        elif rct.k == 'struct' and ins.ty.k != 'void':
            ret = self.new_object(st, rct, z3.IntVal(1))
            lt_ = ins.ty
            if ins.res:
                if lt_.k == 'struct':
                    st.regs[ins.res] = AV([self.do_load(st, PV(ret.o, ret.i, rct, 8 * k), e, None, check=False) for k, e in enumerate(lt_.el)])
                else:
                    st.regs[ins.res] = self.do_load(st, ret, lt_, None, check=False)
        elif ins.ty.k != 'void':
            ret = self.fresh_ret(st, ins, rct, name)
            if ins.res:
                st.regs[ins.res] = ret
        newm = Mem(self, dict(st.heap), st.ctr)
        c = Ctx(self, con, vals, pcts, oldm, newm, ret, rct)
        for lab, g in con.ensures(c):
            self.assume(g)
        if con.opts.get('fresh_ret') and isinstance(ret, PV):
            self.rank += 1
            OBJRANK[ret.o.get_id()] = (self.rank, ret.o)

    def cparse(self, s):
        s = s.strip()
        if s.endswith('*'):
            return CT('ptr', size=8, el=self.cparse(s[:-1]))
        if s == 'void':
            return CT('void')
        return self.types.named(s)

    def decl_types(self, name):
        l = self.mod.decls.get(name)
        m = re.search(r'!dbg !(\d+)', l) if l else None
        if not m:
            return None

        class X:
            pass
        x = X()
        x.dbg = m.group(1)
        return self.types.func_types(x)

    def havoc_axioms(self, h, key):
        o, i, j = z3.Ints('o i j')
        s = z3.Select(h, o, i, j)
        if key[2] == 'int':
            r = self.key_range(key)
            if r:
                self.assume(z3.ForAll([o, i, j], z3.And(r[0] <= s, s <= r[1]), patterns=[s]))

    def fresh_ret(self, st, ins, rct, name):
        t = ins.ty
        if t.k == 'int':
            if t.n == 1:
                return BV1(fresh('ret_' + name, z3.BoolSort()))
            v = fresh('ret_' + name, I)
            if rct.signed:
                self.assume(z3.And(v >= -(1 << (t.n - 1)), v < (1 << (t.n - 1))))
            else:
                self.assume(z3.And(v >= 0, v < (1 << t.n)))
            return IV(v, t.n, rct.signed)
        if t.k == 'double':
            return RV(fresh('ret_' + name, R))
        if t.k == 'ptr':
            o, i = fresh('ret_' + name, I), fresh('reti', I)
            self.assume(z3.And(o >= 0, o <= st.ctr))
            T = rct.el if rct.k == 'ptr' and rct.el.k != 'void' else None
            if T is None and ins.res:
                T = self.infer_T(ins.res)
            if T is not None:
                self.register(T)
            return PV(o, i, T)
        raise Unsupported('return type %r' % t)

    def intrinsic(self, st, ins, name):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.va_', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.assume', 'llvm.experimental.noalias')):
            if ins.res:
                st.regs[ins.res] = PV(z3.IntVal(0), z3.IntVal(0), None)
            return
        args = [self.val(st, a, t) for t, a, at in ins.a]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return self.do_memcpy(st, ins, args[0], args[1], args[2])
        if name.startswith('llvm.memset'):
            return self.do_memset(st, ins, args[0], args[1], args[2])
        m = re.match(r'llvm\.(fabs|sqrt|maxnum|minnum|floor|ceil|fmuladd|sin|cos|umax|umin|smax|smin|abs|expect|objectsize|is\.constant|log|exp|pow|log2)\.', name)
        if m:
            k = m.group(1)
            r = self.mathfn(st, k, args, ins)
            if r is not None:
                st.regs[ins.res] = r
                return
        raise Unsupported('intrinsic ' + name)

    def mathfn(self, st, k, args, ins=None):
        if k == 'fabs':
            return RV(z3.If(args[0].t >= 0, args[0].t, -args[0].t))
        if k == 'sqrt':
            x = args[0].t
            s = sqrtf(x)
            self.assume(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
            return RV(s)
        if k in ('fmax', 'maxnum'):
            return RV(z3.If(args[0].t >= args[1].t, args[0].t, args[1].t))
        if k in ('fmin', 'minnum'):
            return RV(z3.If(args[0].t <= args[1].t, args[0].t, args[1].t))
        if k == 'floor':
            return RV(z3.ToReal(z3.ToInt(args[0].t)))
        if k == 'ceil':
            return RV(-z3.ToReal(z3.ToInt(-args[0].t)))
        if k == 'fmuladd':
            return RV(args[0].t * args[1].t + args[2].t)
        if k in ('sin', 'cos'):
            x = args[0].t
            self.assume(z3.And(sinf(x) * sinf(x) + cosf(x) * cosf(x) == 1, sinf(x) <= 1, sinf(x) >= -1, cosf(x) <= 1, cosf(x) >= -1))
            return RV(sinf(x) if k == 'sin' else cosf(x))
        if k in ('umax', 'umin', 'smax', 'smin'):
            s = k[0] == 's'
            a, b = args[0].as_(s), args[1].as_(s)
            return IV(z3.If((a >= b) if k.endswith('max') else (a <= b), a, b), args[0].b, s)
        if k == 'abs':
            a = args[0].sg()
            return IV(z3.If(a >= 0, a, -a), args[0].b, True)
        if k == 'expect':
            return args[0]
        if k == 'pow' and z3.is_rational_value(args[1].t) and args[1].t.denominator_as_long() == 1 and 1 <= args[1].t.numerator_as_long() <= 4:
            r = args[0].t
            for _ in range(args[1].t.numerator_as_long() - 1):
                r = r * args[0].t
            return RV(r)
        if k in ('log', 'exp', 'pow', 'log2', 'tan', 'acos', 'asin', 'atan', 'atan2', 'fmod', 'cosh', 'sinh'):
            f = z3.Function('c_' + k, *([R] * len(args)), R)
            self.res.assumptions.add('%s is an uninterpreted real function' % k)
            return RV(f(*[a.t for a in args]))
        return None

    def do_memcpy(self, st, ins, d, s, n):
        nb = simp(n.us())
        T = d.T or s.T
        if T is None:
            raise Unsupported('memcpy of untyped memory')
        if d.T is None:
            self.typed_late(st, d, T)
            d = PV(d.o, d.i, T, d.off, d.dyn)
        if s.T is None:
            self.typed_late(st, s, T)
            s = PV(s.o, s.i, T, s.off, s.dyn)
        c = num(nb)
        # struct-element copies between possibly different containers
        simple = d.off == 0 and not d.dyn and s.off == 0 and not s.dyn and d.T.key() == s.T.key()
        if simple:
            sz = T.size
            if c is not None and c % sz == 0 and c // sz <= 4:
                for k in range(c // sz):
                    for off, stride, count, lt in T.leaves():
                        for q in range(count):
                            if count > 8:
                                break
                            self.copy_leaf(st, ins, PV(d.o, simp(d.i + k), T, off + stride * q), PV(s.o, simp(s.i + k), T, off + stride * q), lt)
                        if count > 8:
                            self.copy_inner(st, ins, d, s, k, T, off, stride, count, lt)
                return
            # range copy
            cntt = fresh('n', I)
            if c is not None and c % sz == 0:
                self.assume(cntt == c // sz)
            else:
                self.oblige(st, 'memcpy size is a whole number of elements', nb % sz == 0, ins.line)
                self.assume(cntt * sz == nb)
            self.range_ok(st, d, cntt, ins)
            self.range_ok(st, s, cntt, ins)
            for off, stride, count, lt in T.leaves():
                for kd in self.kinds(T, off, lt):
                    key = (T.key(), off, kd)
                    h = self.hget(st, key)
                    h2 = fresh('H:%s:%d:%s' % key, hsort(kd))
                    o, i, j = z3.Ints('o i j')
                    sel = z3.Select(h2, o, i, j)
                    inr = z3.And(o == d.o, i >= d.i, i < d.i + cntt)
                    delta = simp(s.i - d.i)
                    self.assume(z3.ForAll([o, i, j], z3.Implies(z3.Not(inr), sel == z3.Select(h, o, i, j)), patterns=[sel]))
                    sel2 = z3.Select(h2, d.o, i, j)
                    self.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= d.i, i < d.i + cntt), sel2 == z3.Select(h, s.o, simp(i + delta), j)), patterns=[sel2]))
                    st.heap[key] = h2
            return
        # leafwise copy with constant size
        if c is None:
            raise Unsupported('memcpy shape')
        dl, sl = self.leaf_span(d, c), self.leaf_span(s, c)
        if [(x[0], x[3].size) for x in dl] != [(x[0], x[3].size) for x in sl] and [(x[0], x[3].k) for x in dl] != [(x[0], x[3].k) for x in sl]:
            raise Unsupported('memcpy between different layouts')
        for (_, k, off, lt), (_, k2, off2, _lt) in zip(dl, sl):
            self.copy_leaf(st, ins, PV(d.o, simp(d.i + k), d.T, off, d.dyn), PV(s.o, simp(s.i + k2), s.T, off2, s.dyn), lt)

    def leaf_span(self, p, nbytes):
        """scalar leaves covered by nbytes starting at p: (distance from p, element, offset in it, type)"""
        out, k = [], 0
        while k * p.T.size - p.off < nbytes:
            if k and p.dyn:
                raise Unsupported('memcpy past an element')
            for off, stride, count, lt in p.T.leaves():
                for q in range(count):
                    a = k * p.T.size + off + q * stride - p.off
                    if 0 <= a < nbytes:
                        out.append((a, k, off + q * stride, lt))
            k += 1
        return out

    def leaf_at(self, p, nbytes):
        """scalar leaves covered by nbytes starting at p (relative offsets)"""
        out = []
        T = p.T
        base = p.off
        for off, stride, count, lt in T.leaves():
            for q in range(count):
                a = off + q * stride - base
                if 0 <= a < nbytes:
                    out.append((a, lt.size, 1, lt))
        return out

    def copy_inner(self, st, ins, d, s, k, T, off, stride, count, lt):
        for kd in self.kinds(T, off, lt):
            key = (T.key(), off, kd)
            h = self.hget(st, key)
            h2 = fresh('H:%s:%d:%s' % key, hsort(kd))
            o, i, j = z3.Ints('o i j')
            sel = z3.Select(h2, o, i, j)
            di, si = simp(d.i + k), simp(s.i + k)
            inr = z3.And(o == d.o, i == di)
            self.assume(z3.ForAll([o, i, j], z3.Implies(z3.Not(inr), sel == z3.Select(h, o, i, j)), patterns=[sel]))
            sel2 = z3.Select(h2, d.o, di, j)
            self.assume(z3.ForAll([j], sel2 == z3.Select(h, s.o, si, j), patterns=[sel2]))
            st.heap[key] = h2

    def copy_leaf(self, st, ins, d, s, lt):
        llt = {'int': LT('int', lt.size * 8), 'real': LT('double') if lt.size == 8 else LT('float'), 'ptr': LT('ptr')}[lt.k]
        v = self.do_load(st, s, llt, ins)
        if isinstance(v, PV) and v.T is None:
            pass
        self.do_store(st, d, llt, v, ins)

    def range_ok(self, st, p, n, ins):
        self.oblige(st, 'memory safety (block operation)', z3.Or(n == 0, z3.And(p.o > 0, p.i >= 0, p.i + n <= cnt(p.o), n >= 0, z3.Not(
            z3.Select(self.hget(st, FREED), p.o, z3.IntVal(0), z3.IntVal(0)) != 0))), ins.line)

    def do_memset(self, st, ins, d, v, n):
        nb = simp(n.us())
        c = num(nb)
        val = num(v.us())
        T = d.T
        if T is None:
            raise Unsupported('memset untyped')
        if val != 0 and not (T.k == 'int' and T.size == 1):
            if not (T.k == 'int' and val == 255):
                raise Unsupported('memset nonzero')
        if c is not None and (d.off or d.dyn or c % T.size or (c == T.size and val == 0 and T.k == 'struct' and sum(x[2] for x in T.leaves()) <= 12)):
            for off, sz, _, lt in self.leaf_at(d, c):
                p = PV(d.o, d.i, d.T, d.off + off, d.dyn)
                llt = {'int': LT('int', lt.size * 8), 'real': LT('double'), 'ptr': LT('ptr')}[lt.k]
                x = {'int': IV(0, lt.size * 8, True), 'real': RV(z3.RealVal(0)), 'ptr': NULLP()}[lt.k]
                self.do_store(st, p, llt, x, ins)
            return
        sz = T.size
        cntt = fresh('n', I)
        if c is not None:
            self.assume(cntt == c // sz)
        else:
            self.oblige(st, 'memset size is a whole number of elements', nb % sz == 0, ins.line)
            self.assume(cntt * sz == nb)
        self.range_ok(st, d, cntt, ins)
        for off, stride, count, lt in T.leaves():
            for kd in self.kinds(T, off, lt):
                key = (T.key(), off, kd)
                h = self.hget(st, key)
                h2 = fresh('H:%s:%d:%s' % key, hsort(kd))
                o, i, j = z3.Ints('o i j')
                sel = z3.Select(h2, o, i, j)
                inr = z3.And(o == d.o, i >= d.i, i < d.i + cntt)
                fill = z3.IntVal(0) if kd != 'real' else z3.RealVal(0)
                if val != 0:
                    fill = z3.IntVal((val if not T.signed or val < 128 else val - 256) if T.size == 1 else (-1 if T.signed else (1 << 8 * T.size) - 1))
                self.assume(z3.ForAll([o, i, j], sel == z3.If(inr, fill, z3.Select(h, o, i, j)), patterns=[sel]))
                st.heap[key] = h2


class FakeGep:
    def __init__(self, ty, a, x):
        self.ty, self.a, self.x = ty, a, x
        self.flags = []
        self.line = None
        self.res = None


class GidSet:
    def __init__(self, lst):
        self.lst = lst
        self.ids = set()
        self.n = 0

    def __contains__(self, x):
        while self.n < len(self.lst):
            self.ids.add(self.lst[self.n].get_id())
            self.n += 1
        return x in self.ids


sqrtf = z3.Function('sqrt', R, R)
sinf = z3.Function('sin', R, R)
cosf = z3.Function('cos', R, R)
pow2 = z3.Function('pow2', I, I)
CASTOPS = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'}
ARITH = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}


def pow2_multiple(t):
    """largest 2^k (k>=1) syntactically dividing t"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        t = t.arg(1)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and num(t.arg(0)) is not None:
        c = num(t.arg(0))
        return c & (-c) if c > 1 and (c & (-c)) > 1 else None
    return None


def has_ite(t, n=60):
    st = [t]
    while st and n:
        n -= 1
        x = st.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                return True
            st.extend(y for y in x.children() if y.sort().kind() != z3.Z3_ARRAY_SORT)
    return False


def simp(t):
    if num(t) is not None:
        return t
    return z3.simplify(t)


def as_bool_int(x):
    """If(c,1,0) -> c"""
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        a, b = num(x.arg(1)), num(x.arg(2))
        if a == 1 and b == 0:
            return x.arg(0)
        if a == 0 and b == 1:
            return z3.Not(x.arg(0))
    return None


def fpconst(s, ty):
    if s.startswith('0x'):
        import struct
        v = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
        if v != v or v in (float('inf'), float('-inf')):
            return fresh('inf', R)
        fr = Fraction(v)
    else:
        fr = Fraction(float(s))
    # decimal literals written in the source: keep the exact binary value
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))


def has_quant(f):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def consts(f):
    seen = set()
    out = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.get_id())
        st.extend(x.children())
    return out


def is_real_problem(g):
    st = [g]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == R:
            return True
        st.extend(x.children())
    return False


def real_only(f):
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if x.sort() == I and num(x) is None:
            return False
        st.extend(x.children())
    return True


def real_eq(g):
    while z3.is_implies(g):
        g = g.arg(1)
    return z3.is_eq(g) and g.arg(0).sort() == R or (z3.is_and(g) and all(z3.is_eq(x) and x.arg(0).sort() == R for x in g.children()))


def has_arr(f):
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_array(x):
            return True
        st.extend(x.children())
    return False


_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_ANUM}
_BOOL = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE}
_CMP = {z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}


RMUL = z3.Function('rmul', R, R, R)
RINV = z3.Function('rinv', R, R)


class MulAbs:
    """sound abstraction: products and quotients of non-constant reals become uninterpreted (commutative) functions,
    which congruence and quantifier instantiation see through"""

    def __init__(self):
        self.m = {}
        self.keep = []

    @staticmethod
    def axioms():
        x, y = z3.Reals('mx my')
        return [z3.ForAll([x, y], RMUL(x, y) == RMUL(y, x), patterns=[RMUL(x, y)])]

    def __call__(self, x):
        k = x.get_id()
        r = self.m.get(k)
        if r is None:
            self.keep.append(x)
            r = self.go(x)
            self.m[k] = r
            self.keep.append(r)
        return r

    def factors(self, x):
        if z3.is_mul(x):
            c, f = Fraction(1), []
            for a in x.children():
                c2, f2 = self.factors(a)
                c *= c2
                f += f2
            return c, f
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_UMINUS:
            c, f = self.factors(x.arg(0))
            return -c, f
        if z3.is_rational_value(x):
            return x.as_fraction(), []
        if k == z3.Z3_OP_DIV:
            c, f = self.factors(x.arg(0))
            if z3.is_rational_value(x.arg(1)):
                d = x.arg(1).as_fraction()
                return (c / d, f) if d != 0 else (Fraction(1), [x])
            c2, f2 = self.factors(x.arg(1))
            if c2 == 0:
                return Fraction(1), [x]
            return c / c2, f + [RINV(self.prod(f2))]
        return Fraction(1), [self(x)]

    def prod(self, f):
        if not f:
            return z3.RealVal(1)
        f = sorted(f, key=lambda a: a.get_id())
        r = f[-1]
        for a in reversed(f[:-1]):
            r = RMUL(a, r)
        return r

    def go(self, x):
        if z3.is_quantifier(x):
            if not has_nl(x.body()):
                return x
            n = x.num_vars()
            vs = [z3.FreshConst(x.var_sort(i), x.var_name(i)) for i in range(n)]
            rv = list(reversed(vs))
            body = self(z3.substitute_vars(x.body(), *rv))
            pats = []
            for i in range(x.num_patterns()):
                p = x.pattern(i)
                ts = [z3.substitute_vars(t, *rv) for t in p.children()]
                pats.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
            return z3.ForAll(vs, body, patterns=pats) if x.is_forall() else z3.Exists(vs, body, patterns=pats)
        if not has_nl(x):
            return x
        if x.sort() == R and (z3.is_mul(x) or x.decl().kind() == z3.Z3_OP_DIV):
            c, f = self.factors(x)
            if not f:
                return z3.RealVal(str(c))
            r = self.prod(f)
            return r if c == 1 else z3.RealVal(str(c)) * r
        ch = [self(c) for c in x.children()]
        d = x.decl().kind()
        if d == z3.Z3_OP_AND:
            return z3.And(*ch)
        if d == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if d == z3.Z3_OP_ADD:
            return z3.Sum(*ch)
        if d == z3.Z3_OP_SUB and len(ch) == 2:
            return ch[0] - ch[1]
        if d == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        return x.decl()(*ch)


_nl = {}


def has_nl(x):
    """does x contain a product or quotient of non-constant reals?"""
    k = x.get_id()
    r = _nl.get(k)
    if r is not None:
        return r[0]
    if z3.is_quantifier(x):
        r = has_nl(x.body())
    elif not z3.is_app(x):
        r = False
    else:
        r = False
        if z3.is_mul(x) and x.sort() == R:
            r = sum(0 if z3.is_rational_value(c) else 1 for c in x.children()) >= 2
        elif x.decl().kind() == z3.Z3_OP_DIV:
            r = not z3.is_rational_value(x.arg(1))
        r = r or any(has_nl(c) for c in x.children())
    _nl[k] = (r, x)
    return r


class RealAbs:
    """sound abstraction to booleans and reals: equal terms get equal unknowns"""

    def __init__(self):
        self.m = {}
        self.keep = []

    def unk(self, x):
        self.keep.append(x)
        return z3.Const('abs%d' % x.get_id(), x.sort())

    def __call__(self, x):
        k = x.get_id()
        if k not in self.m:
            self.keep.append(x)
            self.m[k] = self.go(x)
        return self.m[k]

    def go(self, x):
        if z3.is_quantifier(x):
            return self.unk(x)
        d = x.decl().kind()
        ch = x.children()
        if x.sort() == R:
            if d in _ARITH:
                return x if not ch else x.decl()(*[self(c) for c in ch]) if len(ch) != 2 or d not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (self(ch[0]) + self(ch[1]) if d == z3.Z3_OP_ADD else self(ch[0]) * self(ch[1]))
            if d == z3.Z3_OP_ITE:
                return z3.If(self(ch[0]), self(ch[1]), self(ch[2]))
            return self.unk(x)
        if z3.is_bool(x):
            if d in _BOOL:
                r = [self(c) for c in ch]
                return x if not ch else z3.And(*r) if d == z3.Z3_OP_AND else z3.Or(*r) if d == z3.Z3_OP_OR else x.decl()(*r)
            if d == z3.Z3_OP_ITE:
                return z3.If(self(ch[0]), self(ch[1]), self(ch[2]))
            if d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and (ch[0].sort() == R or z3.is_bool(ch[0])):
                return self(ch[0]) == self(ch[1])
            if d == z3.Z3_OP_DISTINCT and len(ch) == 2 and ch[0].sort() == R:
                return self(ch[0]) != self(ch[1])
            if d in _CMP and ch[0].sort() == R:
                a, b = self(ch[0]), self(ch[1])
                return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GT: a > b}[d]
            return self.unk(x)
        return self.unk(x)


def relevant_slices(facts, goal):
    """cone-of-influence slices, growing"""
    g = consts(goal)
    cs = [(f, consts(f)) for f in facts]
    cur = set(g)
    out = []
    for _ in range(2):
        sel = [f for f, c in cs if c and c & cur]
        n = set(cur)
        for f, c in cs:
            if c & cur:
                n |= c
        out.append([f for f, c in cs if c and c <= n])
        cur = n
    out.append([f for f, _ in cs])
    res = []
    seen = set()
    for o in out:
        if len(o) not in seen:
            seen.add(len(o))
            res.append(o)
    return res
