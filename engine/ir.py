"""LLVM-IR front end: compile the real sources with clang and parse the textual IR.

Nothing here is hand-written about plcurve: struct layouts, field names, parameter types and
pointee types all come from the DWARF metadata clang emits for the current source.
"""
import os, re, subprocess, hashlib

CLANG = '/usr/bin/clang-18' if os.path.exists('/usr/bin/clang-18') else '/usr/lib/llvm-18/bin/clang'
OPT = '/usr/lib/llvm-18/bin/opt'
LINK = '/usr/lib/llvm-18/bin/llvm-link'

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
  |(?P<loc>%(?:"[^"]*"|[\w.$-]+))
  |(?P<glob>@(?:"[^"]*"|[\w.$-]+))
  |(?P<md>!(?:[\w.]+)?)
  |(?P<attr>\#\d+)
  |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  |(?P<num>-?\d+(?:\.\d*(?:e[+-]?\d+)?)?)
  |(?P<dots>\.\.\.)
  |(?P<id>[A-Za-z_$][\w.$]*)
  |(?P<p>[\[\](){}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ValueError('tok: %r' % s[i:i + 40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
        while i < n and s[i] in ' \t':
            i += 1
    return out


# ----------------------------------------------------------------- LLVM types
class LT:
    """LLVM type: kind in int,double,float,ptr,void,arr,struct,named,vec,label,metadata,fn"""
    __slots__ = ('k', 'n', 'el', 'name', 'packed')

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'named':
            return '%' + self.name
        if self.k in ('arr', 'vec'):
            return '[%d x %r]' % (self.n, self.el)
        return self.k


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def isp(self, s):
        return self.peek()[1] == s and self.peek()[0] in ('p', 'id', 'dots')

    def acc(self, s):
        if self.isp(s):
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise ValueError('expected %s got %r in %r' % (s, self.peek(), ' '.join(x[1] for x in self.t)))

    def type(self):
        k, v = self.next()
        if k == 'id':
            if re.fullmatch(r'i\d+', v):
                return LT('int', int(v[1:]))
            if v in ('double', 'float', 'void', 'label', 'metadata', 'half', 'x86_fp80', 'fp128', 'token'):
                return LT(v)
            if v == 'ptr':
                if self.isp('addrspace'):
                    self.next(); self.exp('('); self.next(); self.exp(')')
                return LT('ptr')
            raise ValueError('type ' + v)
        if k == 'loc':
            return LT('named', name=v[1:].strip('"'))
        if v == '[':
            n = int(self.next()[1]); self.exp('x'); el = self.type(); self.exp(']')
            return LT('arr', n, el)
        if v == '<':
            if self.isp('{'):
                self.next()
                els = self.typelist('}')
                self.exp('>')
                return LT('struct', el=els, packed=True)
            n = int(self.next()[1]); self.exp('x'); el = self.type(); self.exp('>')
            return LT('vec', n, el)
        if v == '{':
            return LT('struct', el=self.typelist('}'))
        raise ValueError('type tok %r' % v)

    def typelist(self, end):
        els = []
        if self.acc(end):
            return els
        while True:
            els.append(self.type())
            if self.acc(end):
                return els
            self.exp(',')

    # constants / values -> tuples
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('reg', v)
        if k == 'glob':
            return ('glob', v[1:].strip('"'))
        if k == 'num':
            if ty.k in ('double', 'float'):
                return ('fp', v)
            return ('int', int(v))
        if k == 'hex':
            return ('fp', v)
        if k == 'str':
            return ('cstr', v)
        if k == 'id':
            if v in ('true', 'false'):
                return ('int', 1 if v == 'true' else 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                fl = []
                while self.peek()[0] == 'id' and self.peek()[1] in ('inbounds', 'nusw', 'nuw'):
                    self.next()
                self.exp('(')
                sty = self.type(); self.exp(',')
                args = []
                while True:
                    t = self.type()
                    args.append((t, self.value(t)))
                    if self.acc(')'):
                        break
                    self.exp(',')
                return ('cgep', sty, args)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
                self.exp('(')
                t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('ccast', v, t, x, t2)
            raise ValueError('value id ' + v)
        if v in ('[', '{', '<'):
            if v == '<' and self.isp('{'):
                self.next(); v = '{'
            end = {'[': ']', '{': '}', '<': '>'}[v]
            els = []
            if not self.acc(end):
                while True:
                    t = self.type()
                    els.append((t, self.value(t)))
                    if self.acc(end):
                        break
                    self.exp(',')
            if end == '}' and self.isp('>'):
                self.next()
            return ('agg', els)
        if k == 'md':
            return ('md', v)
        raise ValueError('value tok %r' % (v,))


PARAM_ATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext', 'noalias',
              'returned', 'immarg', 'dead_on_unwind', 'writable', 'readnone', 'inreg', 'nest', 'swiftself', 'allocptr',
              'allocalign', 'nofree', 'noreturn', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'range', 'nofpclass'}


def param_attrs(p):
    """skip parameter attributes, returning dict for byval/sret"""
    at = {}
    while True:
        k, v = p.peek()
        if k != 'id':
            return at
        if v in ('byval', 'sret', 'byref', 'inalloca', 'elementtype', 'preallocated'):
            p.next(); p.exp('(')
            at[v] = p.type()
            p.exp(')')
        elif v in ('align', 'dereferenceable', 'dereferenceable_or_null'):
            p.next()
            if p.acc('('):
                p.next(); p.exp(')')
            else:
                p.next()
        elif v in PARAM_ATTR:
            p.next()
            if p.isp('('):
                d = 0
                while True:
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                        if d == 0:
                            break
            at[v] = True
        else:
            return at


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'line', 'x', 'blk')

    def __init__(self, op, res=None, ty=None, a=None, flags=(), x=None):
        self.op, self.res, self.ty, self.a, self.flags, self.x = op, res, ty, a, flags, x
        self.line = None
        self.blk = None

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.a, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.preds = []

    def succs(self):
        t = self.ins[-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [l for _, l in t.x[1]]
        return []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (LT, regname, attrs)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.dbg = None
        self.hints = {}   # reg -> DI type id (from dbg.value/declare)
        self.vararg = False
        self.varnames = {}


CASTS = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint',
         'inttoptr'}
BINS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
        'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
BFLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nneg', 'inbounds', 'samesign'}


class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.parse(text)

    # ------------------------------------------------------------
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, rhs = l.split(' = type ', 1)
                if rhs.strip() == 'opaque':
                    self.structs[name[1:].strip('"')] = None
                else:
                    self.structs[name[1:].strip('"')] = Parser(tokenize(rhs)).type()
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('!'):
                m = re.match(r'!(\w[\w.]*) = (?:distinct )?(.*)$', l)
                if m:
                    self.md[m.group(1)] = m.group(2)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(lines[i:j + 1])
                i = j
            i += 1

    def parse_global(self, l):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
        name = m.group(1).strip('"')
        rest = m.group(2)
        mm = re.search(r'\b(global|constant) ', rest)
        if not mm:
            return
        ext = 'external' in rest[:mm.start()]
        p = Parser(tokenize(rest[mm.end():]))
        ty = p.type()
        init = None
        if not ext:
            init = p.value(ty)
        dbg = re.search(r'!dbg (!\d+)', rest)
        self.globals[name] = (mm.group(1) == 'constant', ty, init, dbg.group(1)[1:] if dbg else None)

    def parse_func(self, lines):
        head = lines[0]
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', head)
        name = m.group(1).strip('"')
        f = Func(name)
        d = re.search(r'!dbg !(\d+)', head)
        f.dbg = d.group(1) if d else None
        # return type: tokens before @
        pre = tokenize(head[len('define'):m.start()])
        p = Parser(pre)
        while True:
            k, v = p.peek()
            if k == 'id' and not re.fullmatch(r'i\d+|double|float|void|ptr|x86_fp80', v):
                p.next()
                if p.isp('('):
                    while p.next()[1] != ')':
                        pass
                elif v in ('align', 'dereferenceable'):
                    p.next()
            else:
                break
        f.ret = p.type()
        toks = tokenize(head[m.end():])
        p = Parser(toks)
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    f.vararg = True
                    p.exp(')')
                    break
                t = p.type()
                at = param_attrs(p)
                k, v = p.next()
                f.params.append((t, v, at))
                if p.acc(')'):
                    break
                p.exp(',')
        # implicit numbering of entry block
        nump = sum(1 for x in f.params if re.fullmatch(r'%\d+', x[1]))
        cur = Block('%' + str(nump))
        first = True
        body = lines[1:-1]
        i = 0
        while i < len(body):
            l = body[i].rstrip()
            i += 1
            if not l or l.lstrip().startswith(';'):
                continue
            mm = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if mm:
                if cur.ins or not first:
                    f.blocks[cur.name] = cur; f.order.append(cur.name)
                cur = Block('%' + mm.group(1).strip('"'))
                first = False
                continue
            first = False
            ls = l.strip()
            if ls.startswith('switch'):
                while not body[i - 1].strip().startswith(']') and not ls.rstrip().endswith(']') and '] ' not in ls.split('[')[-1]:
                    ls += ' ' + body[i].strip()
                    i += 1
                    if ']' in body[i - 1]:
                        break
            ins = self.parse_instr(ls, f)
            if ins is not None:
                ins.blk = cur.name
                cur.ins.append(ins)
        f.blocks[cur.name] = cur; f.order.append(cur.name)
        for b in f.blocks.values():
            for s in b.succs():
                f.blocks[s].preds.append(b.name)
        self.funcs[name] = f

    def parse_instr(self, s, f):
        line = None
        m = re.search(r', !dbg !(\d+)', s)
        dbgid = m.group(1) if m else None
        if 'call void @llvm.dbg.' in s:
            m = re.search(r'@llvm\.dbg\.(value|declare)\(metadata ptr (%[\w.]+|%"[^"]*"), metadata !(\d+), metadata !DIExpression\(\)\)', s)
            if m:
                f.hints.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
            m = re.search(r'@llvm\.dbg\.value\(metadata \w+ (%[\w.]+), metadata !(\d+),', s)
            if m:
                f.varnames.setdefault(m.group(1), []).append(m.group(2))
            return None
        # strip metadata attachments
        s = re.sub(r'(, ![\w.]+ ![\w.]+)+\s*$', '', s)
        s = re.sub(r'(, ![\w.]+ !\{\})+\s*$', '', s)
        s = re.sub(r'(, ![\w.]+ ![\w.]+)+\s*$', '', s)
        toks = tokenize(s)
        p = Parser(toks)
        res = None
        if len(toks) > 1 and toks[0][0] == 'loc' and toks[1][1] == '=':
            res = toks[0][1]
            p.i = 2
        k, op = p.next()
        I = self._instr(op, p, res)
        if I is not None:
            I.line = dbgid
        return I

    def _instr(self, op, p, res):
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        if op in BINS:
            fl = []
            while p.peek()[0] == 'id' and p.peek()[1] in BFLAGS:
                fl.append(p.next()[1])
            t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return Instr(op, res, t, [a, b], fl)
        if op == 'fneg':
            while p.peek()[0] == 'id' and p.peek()[1] in BFLAGS:
                p.next()
            t = p.type()
            return Instr(op, res, t, [p.value(t)])
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in BFLAGS:
                p.next()
            pred = p.next()[1]
            t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return Instr(op, res, t, [a, b], x=pred)
        if op in CASTS:
            fl = []
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                fl.append(p.next()[1])
            t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
            return Instr(op, res, t2, [a], fl, x=t)
        if op == 'ret':
            t = p.type()
            if t.k == 'void':
                return Instr('ret', None, t, [])
            return Instr('ret', None, t, [p.value(t)])
        if op == 'br':
            t = p.type()
            if t.k == 'label':
                return Instr('br', None, None, [], x=[p.next()[1]])
            c = p.value(t); p.exp(','); p.type(); a = p.next()[1]; p.exp(','); p.type(); b = p.next()[1]
            return Instr('br', None, None, [c], x=[a, b])
        if op == 'switch':
            t = p.type(); v = p.value(t); p.exp(','); p.type(); d = p.next()[1]
            p.exp('[')
            cases = []
            while not p.acc(']'):
                t2 = p.type(); c = p.value(t2); p.exp(','); p.type(); cases.append((c[1], p.next()[1]))
            return Instr('switch', None, t, [v], x=(d, cases))
        if op == 'unreachable':
            return Instr('unreachable', a=[])
        if op == 'phi':
            while p.peek()[1] in BFLAGS:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.exp('[')
                v = p.value(t); p.exp(',')
                inc.append((v, p.next()[1]))
                p.exp(']')
                if not p.acc(','):
                    break
            return Instr('phi', res, t, [], x=inc)
        if op == 'select':
            while p.peek()[1] in BFLAGS:
                p.next()
            t0 = p.type(); c = p.value(t0); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
            return Instr('select', res, t, [c, a, b])
        if op == 'load':
            p.acc('volatile')
            t = p.type(); p.exp(','); pt = p.type(); a = p.value(pt)
            return Instr('load', res, t, [a])
        if op == 'store':
            p.acc('volatile')
            t = p.type(); v = p.value(t); p.exp(','); pt = p.type(); a = p.value(pt)
            return Instr('store', None, t, [v, a])
        if op == 'getelementptr':
            fl = []
            while p.peek()[1] in ('inbounds', 'nusw', 'nuw'):
                fl.append(p.next()[1])
            st = p.type(); p.exp(',')
            args = []
            while True:
                t = p.type(); args.append((t, p.value(t)))
                if not p.acc(','):
                    break
            return Instr('gep', res, st, [a for _, a in args], fl, x=[t for t, _ in args])
        if op == 'alloca':
            t = p.type()
            cnt = ('int', 1)
            if p.acc(','):
                if p.peek()[1] != 'align':
                    tt = p.type(); cnt = p.value(tt)
            return Instr('alloca', res, t, [cnt])
        if op == 'call':
            while p.peek()[0] == 'id' and (p.peek()[1] in BFLAGS or p.peek()[1] in ('fastcc', 'ccc')):
                p.next()
            at = param_attrs(p)
            rt = p.type()
            # optional function type
            if p.isp('('):
                d = 0
                while True:
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            k, v = p.next()
            if k == 'glob':
                callee = ('glob', v[1:].strip('"'))
            elif k == 'loc':
                callee = ('reg', v)
            else:
                callee = ('asm', v)
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    t = p.type()
                    if t.k == 'metadata':
                        # skip to , or )
                        d = 0
                        while not (d == 0 and p.peek()[1] in (',', ')')):
                            x = p.next()[1]
                            d += x == '('
                            d -= x == ')'
                        args.append((t, ('md', ''), {}))
                    else:
                        a = param_attrs(p)
                        args.append((t, p.value(t), a))
                    if p.acc(')'):
                        break
                    p.exp(',')
            return Instr('call', res, rt, args, x=callee)
        if op == 'extractvalue':
            t = p.type(); a = p.value(t)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            return Instr('extractvalue', res, t, [a], x=idx)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            return Instr('insertvalue', res, t, [a, b], x=(t2, idx))
        if op == 'extractelement':
            t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
            return Instr('extractelement', res, t, [a, b])
        if op == 'insertelement':
            t = p.type(); a = p.value(t); p.exp(','); te = p.type(); e = p.value(te); p.exp(','); t2 = p.type(); b = p.value(t2)
            return Instr('insertelement', res, t, [a, e, b], x=te)
        if op == 'freeze':
            t = p.type()
            return Instr('freeze', res, t, [p.value(t)])
        return Instr('unsupported', res, None, [], x=op)

    # ------------------------------------------------------------ sizes
    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, align)"""
        if t.k == 'int':
            b = max(1, (t.n + 7) // 8)
            a = 1
            while a < b:
                a *= 2
            return (a, a)
        if t.k == 'double':
            return (8, 8)
        if t.k == 'float':
            return (4, 4)
        if t.k == 'ptr':
            return (8, 8)
        if t.k == 'x86_fp80':
            return (16, 16)
        if t.k in ('arr', 'vec'):
            s, a = self.layout(t.el)
            return (s * t.n, a if t.k == 'arr' else s * t.n)
        if t.k == 'named':
            d = self.structs[t.name]
            if d is None:
                return (1, 1)
            return self.layout(d)
        if t.k == 'struct':
            off = 0
            al = 1
            for e in t.el:
                s, a = self.layout(e)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise ValueError('layout %r' % t)

    def field_off(self, t, k):
        if t.k == 'named':
            t = self.structs[t.name]
        off = 0
        for i, e in enumerate(t.el):
            s, a = self.layout(e)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if i == k:
                return off, e
            off += s
        raise ValueError

    # ------------------------------------------------------------ debug info
    def mdfields(self, id):
        s = self.md.get(id)
        if s is None:
            return None, {}
        m = re.match(r'!(\w+)\((.*)\)$', s)
        if not m:
            m = re.match(r'!\{(.*)\}$', s)
            if m:
                return 'list', [x.strip() for x in m.group(1).split(',')] if m.group(1).strip() else []
            return None, {}
        kind, body = m.group(1), m.group(2)
        d = {}
        for mm in re.finditer(r'(\w+): (!\d+|"(?:[^"\\]|\\.)*"|[-\w|. ]+)', body):
            d[mm.group(1)] = mm.group(2).strip().strip('"')
        return kind, d

    def line_of(self, id):
        if id is None:
            return None
        k, d = self.mdfields(id)
        return d.get('line')


# ----------------------------------------------------------------- C types (from DWARF)
class CT:
    """k: int (size,signed,bool) | real | ptr(el) | struct(name,size,members) | arr(el,n) | void | fn"""
    def __init__(self, k, name='', size=0, signed=False, isbool=False, el=None, n=0):
        self.k, self.name, self.size, self.signed, self.isbool, self.el, self.n = k, name, size, signed, isbool, el, n
        self.members = []   # (name, off, CT)
        self._leaves = None

    def __repr__(self):
        if self.k == 'ptr':
            return 'ptr<%s>' % (self.el.k if self.el.k not in ('struct', 'int') else self.el.name)
        if self.k == 'arr':
            return '%r[%d]' % (self.el, self.n)
        return self.name or self.k

    def key(self):
        """canonical element-type name, used in heap keys"""
        if self.k == 'ptr':
            return 'ptr'
        if self.k == 'arr':
            return self.el.key()
        if self.k == 'int':
            return ('b' if self.isbool else ('i' if self.signed else 'u')) + str(self.size * 8)
        if self.k == 'real':
            return 'f%d' % (self.size * 8)
        return self.name or self.k

    def leaves(self):
        """flattened list of Leaf(off,stride,count,ct)"""
        if self._leaves is None:
            out = []
            if self.k == 'struct':
                for nm, off, ct in self.members:
                    out += [(off + o, s, c, t) for (o, s, c, t) in ct.leaves()]
            elif self.k == 'arr':
                sub = self.el.leaves()
                for (o, s, c, t) in sub:
                    if c == 1:
                        out.append((o, self.el.size, self.n, t))
                    elif o == 0 and s * c == self.el.size:
                        out.append((o, s, c * self.n, t))
                    else:
                        for q in range(self.n):
                            out.append((o + q * self.el.size, s, c, t))
            else:
                out.append((0, self.size, 1, self))
            self._leaves = out
        return self._leaves


class Types:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}
        self.by_struct = {}
        for id, s in mod.md.items():
            if s.startswith('!DICompositeType(tag: DW_TAG_structure_type'):
                k, d = mod.mdfields(id)
                if d.get('name') and 'elements' in d:
                    self.by_struct.setdefault(d['name'], id)
        self.typedef = {}
        for id, s in mod.md.items():
            if s.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
                k, d = mod.mdfields(id)
                if d.get('name'):
                    self.typedef.setdefault(d['name'], id)

    def named(self, name):
        if name in self.by_struct:
            return self.get(self.by_struct[name])
        if name in self.typedef:
            return self.get(self.typedef[name])
        prim = {'double': CT('real', 'double', 8), 'int': CT('int', 'int', 4, True), 'unsigned int': CT('int', 'unsigned int', 4),
                'char': CT('int', 'char', 1, True), 'unsigned char': CT('int', 'unsigned char', 1),
                'bool': CT('int', 'bool', 1, False, True), 'ptr': CT('ptr', size=8, el=CT('void')),
                'long': CT('int', 'long', 8, True), 'unsigned long': CT('int', 'unsigned long', 8)}
        return prim[name]

    def get(self, id):
        if id is None or id == 'null':
            return CT('void')
        id = id.lstrip('!')
        if id in self.cache:
            return self.cache[id]
        kind, d = self.mod.mdfields(id)
        if kind == 'DIBasicType':
            enc = d.get('encoding', '')
            size = int(d['size']) // 8
            if 'float' in enc:
                t = CT('real', d['name'], size)
            elif 'boolean' in enc:
                t = CT('int', d['name'], size, False, True)
            elif 'complex' in enc:
                el = CT('real', 'double', 8)
                t = CT('struct', 'complex', size)
                t.members = [('re', 0, el), ('im', size // 2, el)]
            else:
                t = CT('int', d['name'], size, 'unsigned' not in enc)
            self.cache[id] = t
            return t
        if kind == 'DIDerivedType':
            tag = d['tag']
            if tag == 'DW_TAG_pointer_type':
                t = CT('ptr', size=8)
                self.cache[id] = t
                t.el = self.get(d.get('baseType'))
                while t.el.k == 'arr':          # a pointer to a whole array is a pointer to its elements
                    t.el = t.el.el
                return t
            t = self.get(d.get('baseType'))
            if tag == 'DW_TAG_typedef' and t.k == 'struct' and not t.name:
                t.name = d['name']
            self.cache[id] = t
            return t
        if kind == 'DICompositeType':
            tag = d['tag']
            if 'array' in tag:
                base = self.get(d['baseType'])
                dims = []
                for e in self.mod.mdfields(d['elements'].lstrip('!'))[1]:
                    kk, dd = self.mod.mdfields(e.lstrip('!'))
                    try:
                        dims.append(int(dd.get('count', '0')))
                    except ValueError:
                        dims.append(0)
                t = base
                for n in reversed(dims):
                    t = CT('arr', size=n * t.size, el=t, n=n)
                self.cache[id] = t
                return t
            if 'enumeration' in tag:
                b = d.get('baseType')
                bt = self.get(b) if b else CT('int', 'unsigned int', 4)
                t = CT('int', d.get('name', 'enum'), bt.size, bt.signed)
                self.cache[id] = t
                return t
            nm = d.get('name', '')
            if 'elements' not in d and nm in self.by_struct and self.by_struct[nm] != id:
                return self.get(self.by_struct[nm])
            t = CT('struct', nm, int(d.get('size', '0')) // 8)
            if nm and self.by_struct.get(nm) != id and nm in self.by_struct:
                t = self.get(self.by_struct[nm])
                self.cache[id] = t
                return t
            self.cache[id] = t
            if 'elements' in d:
                for e in self.mod.mdfields(d['elements'].lstrip('!'))[1]:
                    kk, dd = self.mod.mdfields(e.lstrip('!'))
                    if dd.get('tag') == 'DW_TAG_member':
                        t.members.append((dd.get('name', ''), int(dd.get('offset', '0')) // 8, self.get(dd['baseType'])))
            return t
        if kind == 'DISubroutineType':
            t = CT('fn', 'fn', 1)
            self.cache[id] = t
            return t
        return CT('void')

    def func_types(self, f):
        """(ret CT, [param CT]) from DISubprogram"""
        if f.dbg is None:
            return None
        k, d = self.mod.mdfields(f.dbg)
        k2, d2 = self.mod.mdfields(d['type'].lstrip('!'))
        lst = self.mod.mdfields(d2['types'].lstrip('!'))[1]
        tys = [self.get(x if x != 'null' else None) for x in lst]
        return tys[0] if tys else CT('void'), tys[1:]

    def local_hint(self, f, reg):
        best = None
        for kind, vid in f.hints.get(reg, []):
            k, d = self.mod.mdfields(vid)
            if k == 'DILocalVariable':
                t = self.get(d['type'])
                if kind == 'declare':
                    return t        # object type itself
                if t.k == 'ptr':
                    if t.el.k not in ('void', 'fn'):
                        return t.el
                    best = t.el
        return best


# ----------------------------------------------------------------- building
def compile_ll(src, out, incs, defs=()):
    cmd = [CLANG, '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-ffp-contract=off', '-w',
           '-DHAVE_CONFIG_H'] + ['-I' + x for x in incs] + list(defs) + [src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr


def optimise(ll_in, ll_out, keep, passes='sroa,simplifycfg'):
    """inline every defined function not in `keep` into its callers, then promote memory to registers.
    `keep` = functions with a contract (these stay calls)."""
    txt = open(ll_in).read()

    def fix(m):
        line = m.group(0)
        nm = re.search(r'@("[^"]*"|[\w.$-]+)\(', line).group(1).strip('"')
        if nm in keep:
            return line.replace(' !dbg ', ' noinline !dbg ', 1) if ' !dbg ' in line else line
        if '...' in line:
            return line
        return line.replace(' !dbg ', ' alwaysinline !dbg ', 1) if ' !dbg ' in line else line
    txt = re.sub(r'^define .*$', fix, txt, flags=re.M)
    tmp = ll_out + '.pre.ll'
    open(tmp, 'w').write(txt)
    r = subprocess.run([OPT, '-S', '-passes=always-inline,' + passes, tmp, '-o', ll_out], capture_output=True, text=True)
    os.unlink(tmp)
    return r.returncode, r.stderr
