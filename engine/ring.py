"""Decides equalities between rational expressions by normalisation: definitional equations and squares of
square roots among the hypotheses are used as rewrite rules; every divisor is a side condition for the caller."""
import z3
from fractions import Fraction
import time
R = z3.RealSort()


class No(Exception):
    pass


LIMIT = 60000


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def mmul(m, n):
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b, red=None):
    if len(a) * len(b) > LIMIT * 10:
        raise No('size')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if red:
        r = red(r)
    return r


ONE = {(): Fraction(1)}


def frac(x):
    return Fraction(x.numerator_as_long(), x.denominator_as_long())


class Ring:
    def __init__(self, facts):
        self.defs = {}       # unknown id -> term
        self.names = {}
        self.sq = {}         # unknown id -> term equal to its square
        self.dens = []
        self.cache = {}
        self.t0 = time.time()
        for f in facts:
            self.fact(f)

    def isvar(self, x):
        return z3.is_const(x) and x.sort() == R and x.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def occurs(self, v, t, seen=None):
        """does v occur in t, definitions unfolded"""
        seen = set() if seen is None else seen
        st = [t]
        while st:
            x = st.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if k == v:
                return True
            if k in self.defs:
                st.append(self.defs[k])
            st.extend(x.children())
        return False

    def fact(self, f):
        if not (z3.is_eq(f) and f.arg(0).sort() == R):
            return
        a, b = f.arg(0), f.arg(1)
        for x, y in ((a, b), (b, a)):
            if self.isvar(x) and x.get_id() not in self.defs and not self.occurs(x.get_id(), y):
                self.defs[x.get_id()] = y
                return
        for x, y in ((a, b), (b, a)):
            if z3.is_mul(x) and x.num_args() == 2 and x.arg(0).eq(x.arg(1)) and self.isvar(x.arg(0)) and not self.occurs(x.arg(0).get_id(), y):
                self.sq.setdefault(x.arg(0).get_id(), y)
                return

    def red(self, p):
        if not self.sq:
            return p
        while True:
            hit = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in self.sq:
                        hit = v
                        break
                if hit:
                    break
            if not hit:
                return p
            num, den = self.sqpoly(hit)
            if den != ONE:
                raise No('square with divisor')
            out = {}
            for m, c in p.items():
                e = dict(m).get(hit, 0)
                if e < 2:
                    out = padd(out, {m: c})
                    continue
                rest = tuple((v, x) for v, x in m if v != hit)
                if e % 2:
                    rest = mmul(rest, ((hit, 1),))
                t = {rest: c}
                for _ in range(e // 2):
                    t = pmul(t, num)
                out = padd(out, t)
            p = out
            if len(p) > LIMIT or time.time() - self.t0 > 20:
                raise No('size')

    def sqpoly(self, v):
        k = ('sq', v)
        if k not in self.cache:
            self.cache[k] = self.conv(self.sq[v])
        return self.cache[k]

    def conv(self, x):
        k = x.get_id()
        if k in self.cache:
            return self.cache[k]
        if time.time() - self.t0 > 20:
            raise No('time')
        r = self.conv1(x)
        if len(r[0]) > LIMIT or len(r[1]) > LIMIT:
            raise No('size')
        self.names[k] = x
        self.cache[k] = r
        return r

    def conv1(self, x):
        if z3.is_rational_value(x):
            v = frac(x)
            return ({(): v} if v else {}, ONE)
        if x.get_id() in self.defs:
            return self.conv(self.defs[x.get_id()])
        d = x.decl().kind()
        ch = x.children()
        if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                q = self.conv(c)
                if d == z3.Z3_OP_SUB:
                    q = (pneg(q[0]), q[1])
                if r[1] == q[1]:
                    r = (padd(r[0], q[0]), r[1])
                else:
                    r = (padd(pmul(r[0], q[1], self.red), pmul(q[0], r[1], self.red)), pmul(r[1], q[1], self.red))
            return r
        if d == z3.Z3_OP_UMINUS:
            r = self.conv(ch[0])
            return (pneg(r[0]), r[1])
        if d == z3.Z3_OP_MUL:
            r = self.conv(ch[0])
            for c in ch[1:]:
                q = self.conv(c)
                r = (pmul(r[0], q[0], self.red), pmul(r[1], q[1], self.red))
            return r
        if d == z3.Z3_OP_DIV:
            a, b = self.conv(ch[0]), self.conv(ch[1])
            if not b[0]:
                raise No('division by zero')
            if list(b[0]) != [()] or not b[0]:
                self.dens.append(ch[1])
            return (pmul(a[0], b[1], self.red), pmul(a[1], b[0], self.red))
        if z3.is_const(x) and d == z3.Z3_OP_UNINTERPRETED:
            return ({((x.get_id(), 1),): Fraction(1)}, ONE)
        raise No('term')


def identity(facts, g):
    """(True, divisors) when g: a == b holds identically given the rewrite rules"""
    if not (z3.is_eq(g) and g.arg(0).sort() == R):
        return False, []
    try:
        r = Ring(facts)
        a, b = r.conv(g.arg(0)), r.conv(g.arg(1))
        p = padd(r.red(pmul(a[0], b[1], r.red)), pneg(r.red(pmul(b[0], a[1], r.red))))
        return (not p), r.dens
    except (No, RecursionError):
        return False, []


class Canon:
    """rewrites comparisons between rational-free expressions to a canonical polynomial compared with 0"""

    def __init__(self, facts):
        self.r = Ring(facts)
        self.m = {}
        self.vars = {}

    def poly(self, p):
        def mono(m, c):
            t = z3.RealVal(str(c))
            for v, e in m:
                for _ in range(e):
                    t = t * self.r.names[v]
            return t
        ks = sorted(p)
        if not ks:
            return z3.RealVal(0)
        s = mono(ks[0], p[ks[0]])
        for k in ks[1:]:
            s = s + mono(k, p[k])
        return s

    def __call__(self, x):
        k = x.get_id()
        if k not in self.m:
            self.m[k] = (self.go(x), x)
        return self.m[k][0]

    def go(self, x):
        d = x.decl().kind()
        ch = x.children()
        if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0])):
            r = [self(c) for c in ch]
            return z3.And(*r) if d == z3.Z3_OP_AND else z3.Or(*r) if d == z3.Z3_OP_OR else z3.Not(r[0]) if d == z3.Z3_OP_NOT else z3.Implies(*r) if d == z3.Z3_OP_IMPLIES else r[0] == r[1]
        if len(ch) == 2 and ch[0].sort() == R and d in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            try:
                nd = len(self.r.dens)
                a, b = self.r.conv(ch[0]), self.r.conv(ch[1])
                if a[1] != ONE or b[1] != ONE:
                    return x
                p = padd(a[0], pneg(b[0]))
                if len(p) > 400:
                    return x
                op = {z3.Z3_OP_EQ: '==', z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>'}[d]
                if p:
                    lead = p[sorted(p)[-1]]
                    p = {m: c / abs(lead) for m, c in p.items()}
                    if lead < 0:
                        p = pneg(p)
                        op = {'<=': '>=', '>=': '<=', '<': '>', '>': '<', '==': '=='}[op]
                    cst = -p.pop((), Fraction(0))
                    t = self.poly(p)
                    c = z3.RealVal(str(cst))
                else:
                    t, c = z3.RealVal(0), z3.RealVal(0)
                return {'==': t == c, '<=': t <= c, '>=': t >= c, '<': t < c, '>': t > c}[op]
            except (No, RecursionError):
                return x
        return x
