"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the code under verification.

Functions are indexed when the module is loaded and parsed on first use."""
import re
import sys

TOK = re.compile(r'''\s*(?:
  (?P<loc>%"[^"]*"|%[-\w.$]+) |
  (?P<glob>@"[^"]*"|@[-\w.$]+) |
  (?P<cstr>c"[^"]*") |
  (?P<str>"[^"]*") |
  (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+) |
  (?P<word>[A-Za-z_][\w.]*) |
  (?P<meta>![\w.]*|\#\d+) |
  (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


class IRError(Exception):
    pass


def lex(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise IRError('lex: ' + s[pos:pos + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    return out


# ---- types: ('i',n) ('ptr',) ('f','float') ('void',) ('arr',n,t) ('st',name|None,fields,packed) ('vec',n,t) ('label',)
class Types:
    def __init__(self):
        self.named = {}
        self.raw = {}
        self.cache = {}

    def resolve(self, t):
        if t[0] == 'named':
            nm = t[1]
            if nm not in self.named:
                raw = self.raw.get(nm)
                if raw is None or raw.strip() == 'opaque':
                    self.named[nm] = ('st', (), False)
                else:
                    self.named[nm] = None
                    p = P(lex(raw), self)
                    self.named[nm] = p.type()
            return self.resolve(self.named[nm])
        return t

    def sa(self, t):
        """(size, align)"""
        r = self.cache.get(t)
        if r is None:
            r = self._sa(t)
            self.cache[t] = r
        return r

    def _sa(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1
            while b * 8 < n:
                b *= 2
            return (b, min(b, 16))
        if k == 'ptr':
            return (8, 8)
        if k == 'f':
            return {'half': (2, 2), 'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'fp128': (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self.sa(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.sa(t[2])
            return (s * t[1], s * t[1])
        if k == 'st':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.sa(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'func' or k == 'void':
            return (1, 1)
        raise IRError('sizeof %r' % (t,))

    def offs(self, t):
        t = self.resolve(t)
        off = 0
        out = []
        for f in t[1]:
            s, a = self.sa(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            out.append(off)
            off += s
        return out


ATTR = set('''noundef nonnull zeroext signext returned noalias nocapture readonly readnone writeonly immarg inreg
nofree nest swiftself dead_on_unwind writable noext inalloca volatile inbounds nuw nsw exact fast nnan ninf nsz arcp
contract reassoc afn disjoint nneg inrange allocptr allocalign nuw weak atomic acquire release seq_cst monotonic acq_rel
unordered samesign'''.split())
ATTRP = set('dereferenceable dereferenceable_or_null sret byval byref align preallocated elementtype captures range initializes nofpclass syncscope memory addrspace'.split())

CEXPR = set('getelementptr inttoptr ptrtoint bitcast add sub mul xor or and shl lshr trunc zext sext icmp select addrspacecast'.split())


class P:
    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.ty = types

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, v):
        k, x = self.next()
        if x != v:
            raise IRError('expected %s got %s in %s' % (v, x, ' '.join(a[1] for a in self.t)[:300]))

    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
                if self.peek()[1] == 'addrspace':
                    self.next(); self.eat('('); self.next(); self.eat(')')
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
                t = ('f', v)
            elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise IRError('type? ' + v)
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.eat('x'); e = self.type(); self.eat(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            while not self.acc('}'):
                fs.append(self.type()); self.acc(',')
            t = ('st', tuple(fs), False)
        elif v == '<':
            if self.acc('{'):
                fs = []
                while not self.acc('}'):
                    fs.append(self.type()); self.acc(',')
                self.eat('>')
                t = ('st', tuple(fs), True)
            else:
                n = int(self.next()[1]); self.eat('x'); e = self.type(); self.eat('>')
                t = ('vec', n, e)
        else:
            raise IRError('type? %r' % (v,))
        if self.peek()[1] == '(':  # function type
            depth = 0
            while True:
                x = self.next()[1]
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            t = ('func', t)
        return t

    def attrs(self):
        out = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRP:
                self.next()
                if self.peek()[1] == '(':
                    j = self.i
                    depth = 0
                    while True:
                        x = self.next()[1]
                        if x == '(':
                            depth += 1
                        elif x == ')':
                            depth -= 1
                            if depth == 0:
                                break
                    if v in ('byval', 'sret'):
                        p = P(self.t[j + 1:self.i - 1], self.ty)
                        out[v] = p.type()
                elif v == 'align':
                    self.next()
            elif k == 'word' and v in ATTR:
                self.next()
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            elif k == 'meta' and v.startswith('#'):
                self.next()
            else:
                return out

    # values: ('l',name) ('g',name) ('c',int) ('null',) ('undef',) ('zero',) ('agg',[(t,v)]) ('str',bytes) ('ce',op,...) ('fp',x)
    def value(self, t):
        k, v = self.next()
        if k == 'loc':
            return ('l', v)
        if k == 'glob':
            return ('g', v)
        if k == 'num':
            rt = self.ty.resolve(t)
            if rt[0] == 'i':
                return ('c', int(v) & ((1 << rt[1]) - 1))
            return ('fp', v)
        if k == 'cstr':
            return ('str', cstr(v[2:-1]))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v in ('null', 'none'):
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in CEXPR:
                return self.cexpr(v)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(t)
        if v in ('[', '{', '<'):
            if v == '<' and self.peek()[1] == '{':
                self.next(); close = '}>'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[v]
            out = []
            while self.peek()[1] != close[0]:
                et = self.type(); self.attrs()
                out.append((et, self.value(et)))
                self.acc(',')
            for c in close:
                self.eat(c)
            return ('agg', out)
        raise IRError('value? %r %r' % (k, v))

    def cexpr(self, op):
        self.attrs()
        if op == 'icmp':
            pred = self.next()[1]
        self.eat('(')
        if op == 'getelementptr':
            self.attrs()
            bt = self.type(); self.eat(',')
            ops = []
            while True:
                self.attrs()
                t = self.type(); self.attrs()
                ops.append((t, self.value(t)))
                if not self.acc(','):
                    break
            self.eat(')')
            return ('ce', 'gep', bt, ops)
        if op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            t = self.type(); v = self.value(t); self.eat('to'); t2 = self.type(); self.eat(')')
            return ('ce', op, t, v, t2)
        ops = []
        while True:
            t = self.type(); ops.append((t, self.value(t)))
            if not self.acc(','):
                break
        self.eat(')')
        if op == 'icmp':
            return ('ce', 'icmp', pred, ops)
        return ('ce', op, ops)


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'params', 'rett', 'blocks', 'order', 'loops', 'vararg', 'entry', 'backedge')


class Instr:
    __slots__ = ('op', 'res', 't', 'a', 'dbg', 'fn')

    def __init__(self, op, res, t, a, dbg):
        self.op = op; self.res = res; self.t = t; self.a = a; self.dbg = dbg


DBG = re.compile(r', !dbg !(\d+)')
METATAIL = re.compile(r', ![\w.]+ ![\w.]+')


class Module:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}   # name -> (raw text)
        self.gparsed = {}
        self.fraw = {}
        self.fcache = {}
        self.decl = set()
        self.meta = {}
        self.aliases = {}
        self.ctors = []
        cur = None
        import io
        with io.StringIO(text) as f:
            for line in f:
                if cur is not None:
                    if line.startswith('}'):
                        self.fraw[cur[0]] = (cur[1], cur[2])
                        cur = None
                    else:
                        cur[2].append(line)
                    continue
                c = line[0] if line else ''
                if c == 'd':
                    if line.startswith('define'):
                        nm = fname(line)
                        cur = (nm, line, [])
                    elif line.startswith('declare'):
                        self.decl.add(fname(line))
                elif c == '@':
                    k = line.index(' = ')
                    nm = line[:k]
                    rest = line[k + 3:]
                    if ' alias ' in ' ' + rest[:120]:
                        m = re.search(r'alias .*?(@"[^"]*"|@[-\w.$]+)\s*(?:,|$)', rest)
                        self.aliases[nm] = m.group(1)
                    else:
                        self.globals[nm] = rest.rstrip('\n')
                elif c == '%':
                    k = line.index(' = type ')
                    self.types.raw[line[:k]] = line[k + 8:].rstrip('\n')
                elif c == '!':
                    k = line.find(' = ')
                    if k > 0:
                        self.meta[line[1:k]] = line[k + 3:].rstrip('\n')
        m = self.globals.get('@llvm.global_ctors')
        if m:
            self.ctors = re.findall(r'ptr (@[-\w.$]+), ptr', m)

    def loc(self, dbg):
        if dbg is None:
            return '?'
        s = self.meta.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        line = m.group(1) if m else '?'
        m = re.search(r'scope: !(\d+)', s)
        fn = '?'
        d = 0
        while m and d < 10:
            sc = self.meta.get(m.group(1), '')
            mf = re.search(r'file: !(\d+)', sc)
            if mf:
                mm = re.search(r'filename: "([^"]*)"', self.meta.get(mf.group(1), ''))
                if mm:
                    fn = mm.group(1)
                break
            m = re.search(r'scope: !(\d+)', sc)
            d += 1
        return '%s:%s' % (fn, line)

    def global_def(self, nm):
        """(type, init|None, const?)"""
        r = self.gparsed.get(nm)
        if r is None:
            raw = self.globals.get(nm)
            if raw is None:
                return None
            raw = METATAIL.sub('', raw)
            raw = re.sub(r'comdat\(\$[^)]*\)', 'comdat', raw)
            toks = lex(raw)
            p = P(toks, self.types)
            ext = False
            const = False
            while True:
                k, v = p.peek()
                if v == 'global':
                    p.next(); break
                if v == 'constant':
                    const = True
                    p.next(); break
                if v in ('external', 'extern_weak'):
                    ext = True
                p.next()
                if v in ('thread_local', 'addrspace') and p.peek()[1] == '(':
                    p.next(); p.next(); p.eat(')')
            t = p.type()
            init = None
            if not ext:
                init = p.value(t)
            r = (t, init, const)
            self.gparsed[nm] = r
        return r

    def func(self, nm):
        f = self.fcache.get(nm)
        if f is None:
            nm2 = self.aliases.get(nm, nm)
            raw = self.fraw.get(nm2)
            if raw is None:
                return None
            f = parse_func(nm2, raw[0], raw[1], self)
            self.fcache[nm] = f
        return f


def fname(line):
    m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', line)
    return m.group(1)


LABEL = re.compile(r'^("[^"]*"|[-\w.$]+):')


def parse_func(name, head, body, mod):
    f = Func()
    f.name = name
    # params
    k = head.index(name + '(') + len(name)
    d = 0
    for e in range(k, len(head)):
        if head[e] == '(':
            d += 1
        elif head[e] == ')':
            d -= 1
            if d == 0:
                break
    toks = lex(head[k:e + 1])
    # return type: tokens before the name
    pre = lex(head[len('define'):head.index(name + '(')])
    p = P(pre, mod.types)
    while True:
        kk, v = p.peek()
        if kk == 'word' and not (v[0] == 'i' and v[1:].isdigit()) and v not in ('ptr', 'void', 'float', 'double', 'x86_fp80'):
            p.next()
            if p.peek()[1] == '(':
                while p.next()[1] != ')':
                    pass
            continue
        if kk in ('str', 'num') or v in ('=',):
            p.next()
            continue
        break
    f.rett = p.type()
    p = P(toks, mod.types)
    p.eat('(')
    f.params = []
    f.vararg = False
    cnt = 0
    while not p.acc(')'):
        if p.acc('...'):
            f.vararg = True
            continue
        t = p.type()
        at = p.attrs()
        if p.peek()[0] == 'loc':
            nm = p.next()[1]
        else:
            nm = '%' + str(cnt)
        cnt += 1
        f.params.append((t, nm, at))
        p.acc(',')
    # join continuation lines
    lines = []
    acc = None
    for l in body:
        l = l.rstrip('\n')
        s = l.strip()
        if not s or s.startswith(';'):
            continue
        if acc is not None:
            acc += ' ' + s
            if s.startswith(']') or ']' in s and acc.count('[') <= acc.count(']'):
                lines.append(acc)
                acc = None
            continue
        if s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s.split('[')[-1]:
            acc = s
            continue
        if s.startswith('to label') or s in ('cleanup',) or s.startswith('catch ') or s.startswith('filter '):
            lines[-1] += ' ' + s
            continue
        lines.append(l)
    f.blocks = {}
    f.order = []
    cur = None
    nentry = '%' + str(cnt)
    for l in lines:
        if not l.startswith(' '):
            m = LABEL.match(l)
            if m:
                nm = m.group(1)
                cur = '%' + nm
                f.blocks[cur] = []
                f.order.append(cur)
                continue
        if cur is None:
            cur = nentry
            f.blocks[cur] = []
            f.order.append(cur)
        ins = parse_instr(l, mod)
        if ins is not None:
            f.blocks[cur].append(ins)
    f.entry = f.order[0]
    analyse_loops(f)
    return f


def parse_call(p, mod, op):
    # after 'call'/'invoke'
    while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'cc'):
        p.next()
    p.attrs()
    while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc'):
        p.next()
    rt = p.type()
    if rt[0] == 'func':
        rt = rt[1]
    if p.peek()[0] == 'word' and p.peek()[1] == 'asm':
        callee = ('asm',)
        while p.peek()[1] != '(':
            p.next()
    else:
        callee = p.value(('ptr',))
    p.eat('(')
    args = []
    while not p.acc(')'):
        t = p.type()
        if t[0] == 'metadata':
            depth = 0
            while True:
                x = p.peek()[1]
                if x == '(':
                    depth += 1
                if x == ')':
                    if depth == 0:
                        break
                    depth -= 1
                if x == ',' and depth == 0:
                    break
                p.next()
            args.append((t, None, {}))
            p.acc(',')
            continue
        at = p.attrs()
        args.append((t, p.value(t), at))
        p.acc(',')
    return rt, callee, args


CLAUSE = re.compile(r'(cleanup)|catch ptr (null|@"[^"]*"|@[-$._A-Za-z0-9]+)|(filter)')


def parse_clauses(s):
    return [(m.group(2) or m.group(1) or m.group(3)) for m in CLAUSE.finditer(s.split('landingpad', 1)[1])]


def parse_instr(line, mod):
    m = DBG.search(line)
    dbg = m.group(1) if m else None
    s = METATAIL.sub('', line)
    if '@llvm.dbg.' in s or '@llvm.lifetime' in s or 'llvm.experimental.noalias' in s:
        return None
    toks = lex(s)
    p = P(toks, mod.types)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    op = p.next()[1]
    I = lambda t, *a: Instr(op, res, t, a, dbg)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op == 'call':
        rt, callee, args = parse_call(p, mod, op)
        return I(rt, callee, args)
    if op == 'invoke':
        rt, callee, args = parse_call(p, mod, op)
        p.attrs()
        p.eat('to'); p.eat('label')
        n = p.next()[1]
        p.eat('unwind'); p.eat('label')
        u = p.next()[1]
        return I(rt, callee, args, n, u)
    if op == 'br':
        if p.acc('label'):
            return I(None, p.next()[1])
        t = p.type(); c = p.value(t); p.eat(','); p.eat('label'); a = p.next()[1]; p.eat(','); p.eat('label'); b = p.next()[1]
        return Instr('cbr', res, None, (c, a, b), dbg)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.eat(','); p.eat('label'); d = p.next()[1]
        p.eat('[')
        cases = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.eat(','); p.eat('label')
            cases.append((cv[1], p.next()[1]))
        return I(t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t[0] == 'void':
            return I(t, None)
        p.attrs()
        return I(t, p.value(t))
    if op == 'unreachable':
        return I(None)
    if op == 'alloca':
        p.attrs()
        t = p.type()
        n = ('c', 1)
        if p.acc(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = p.value(nt)
        return I(t, n)
    if op == 'load':
        at = False
        while p.peek()[1] in ('atomic', 'volatile'):
            p.next()
        t = p.type(); p.eat(','); p.type(); p.attrs()
        return I(t, p.value(('ptr',)))
    if op == 'store':
        while p.peek()[1] in ('atomic', 'volatile'):
            p.next()
        t = p.type(); v = p.value(t); p.eat(','); p.type()
        return I(t, v, p.value(('ptr',)))
    if op == 'getelementptr':
        p.attrs()
        bt = p.type(); p.eat(',')
        ops = []
        while True:
            t = p.type(); p.attrs()
            ops.append((t, p.value(t)))
            if not p.acc(','):
                break
        return I(bt, ops)
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
              'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        fl = []
        while p.peek()[0] == 'word' and p.peek()[1] in ATTR:
            fl.append(p.next()[1])
        t = p.type(); a = p.value(t); p.eat(','); b = p.value(t)
        return I(t, a, b, fl)
    if op == 'fneg':
        p.attrs(); t = p.type(); return I(t, p.value(t))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in ATTR:
            p.next()
        pred = p.next()[1]; t = p.type(); a = p.value(t); p.eat(','); b = p.value(t)
        return I(t, pred, a, b)
    if op in ('trunc', 'zext', 'sext', 'bitcast', 'inttoptr', 'ptrtoint', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'):
        p.attrs()
        t = p.type(); v = p.value(t); p.eat('to'); t2 = p.type()
        return I(t2, t, v)
    if op == 'select':
        p.attrs()
        ct = p.type(); c = p.value(ct); p.eat(','); t = p.type(); a = p.value(t); p.eat(','); p.type(); b = p.value(t)
        return I(t, c, a, b)
    if op == 'phi':
        p.attrs()
        t = p.type()
        inc = []
        while True:
            p.eat('['); v = p.value(t); p.eat(','); b = p.next()[1]; p.eat(']')
            inc.append((b, v))
            if not p.acc(','):
                break
        return I(t, dict(inc))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        return I(t, v, idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.eat(','); et = p.type(); ev = p.value(et)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        return I(t, v, et, ev, idx)
    if op == 'atomicrmw':
        while p.peek()[1] in ('volatile',):
            p.next()
        o = p.next()[1]
        p.type(); ptr = p.value(('ptr',)); p.eat(','); t = p.type(); v = p.value(t)
        return I(t, o, ptr, v)
    if op == 'cmpxchg':
        while p.peek()[1] in ('volatile', 'weak'):
            p.next()
        p.type(); ptr = p.value(('ptr',)); p.eat(','); t = p.type(); c = p.value(t); p.eat(','); p.type(); n = p.value(t)
        return I(t, ptr, c, n)
    if op == 'fence':
        return None
    if op == 'landingpad':
        return I(None, parse_clauses(s))
    if op == 'resume':
        return I(None)
    if op == 'freeze':
        t = p.type()
        return I(t, p.value(t))
    return Instr('unsupported', res, None, (s,), dbg)


def succs(ins):
    if ins.op == 'br':
        return [ins.a[0]]
    if ins.op == 'cbr':
        return [ins.a[1], ins.a[2]]
    if ins.op == 'switch':
        return [ins.a[1]] + [c[1] for c in ins.a[2]]
    if ins.op == 'invoke':
        return [ins.a[2], ins.a[3]]
    return []


def analyse_loops(f):
    """natural loops: header -> set of blocks"""
    succ = {b: succs(f.blocks[b][-1]) for b in f.order}
    # reachable + RPO
    seen = set()
    post = []
    st = [(f.entry, iter(succ[f.entry]))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    be = set()
    for b in rpo:
        for s in succ[b]:
            if num[s] <= num[b] and dom(s, b):
                be.add((b, s))
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(pred[x])
    f.loops = loops
    f.backedge = be


if __name__ == '__main__':
    m = Module(open(sys.argv[1]).read())
    n = 0
    for nm in m.fraw:
        f = m.func(nm)
        n += 1
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'unsupported':
                    print('unsupported', i.a)
    for g in m.globals:
        try:
            m.global_def(g)
        except Exception as e:
            print('glob', g, e)
    print(n, 'functions')
