"""Deductive verification-condition generator over LLVM IR.

Symbolic execution of the compiled code (clang -O0 + mem2reg-level cleanup) of a contract function and everything it
calls.  Loops are cut by inductive invariants (candidates written with the contracts plus generated candidates over the
values the loop changes, filtered by the Houdini fixpoint), so a proof covers every iteration.  Every memory access,
assert() and vc_assert() is an obligation for the SMT solver."""
import re
import time
import z3
import loops
from ir import Module, IRError

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class UnrollFail(Exception):
    pass


class Budget(Exception):
    pass


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.o)


NULL = Ptr(0, 0)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Opq:
    """an uninterpreted floating-point value"""


def isint(x):
    return isinstance(x, int)


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        b = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return b if w == 1 else z3.ZeroExt(w - 1, b)
    return x


def norm(x):
    """simplify; constants become Python ints"""
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return x


def tobool(x):
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    return x == z3.BitVecVal(1, 1)


def add(a, b, w=64):
    if isint(a) and isint(b):
        return (a + b) & ((1 << w) - 1)
    if isint(b) and b == 0:
        return a
    if isint(a) and a == 0:
        return b
    return norm(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isint(a) and isint(b):
        return (a - b) & ((1 << w) - 1)
    if isint(b) and b == 0:
        return a
    return norm(bv(a, w) - bv(b, w))


def eq(a, b, w=64):
    if isint(a) and isint(b):
        return int(a == b)
    if w == 1:
        return norm(tobool(a) == tobool(b))
    return norm(bv(a, w) == bv(b, w))


def ult(a, b, w=64):
    if isint(a) and isint(b):
        return int(a < b)
    return norm(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if isint(a) and isint(b):
        return int(a <= b)
    return norm(z3.ULE(bv(a, w), bv(b, w)))


def ite(c, a, b, w):
    if isint(c):
        return a if c else b
    if isint(a) and isint(b) and a == b:
        return a
    if w == 1:
        return norm(z3.If(tobool(c), tobool(a), tobool(b)))
    return z3.If(tobool(c), bv(a, w), bv(b, w))


def land(*xs):
    out = []
    for x in xs:
        if isint(x):
            if not x:
                return 0
            continue
        out.append(x)
    if not out:
        return 1
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def lnot(x):
    if isint(x):
        return int(not x)
    return z3.Not(tobool(x))


# ------------------------------------------------------------------ functional memory (element width w)
class Mem:
    __slots__ = ('k', 'p', 'a', 'b', 'c', 'd', 'w')

    def __init__(self, k, w, p=None, a=None, b=None, c=None, d=None):
        self.k = k; self.w = w; self.p = p; self.a = a; self.b = b; self.c = c; self.d = d


def mem_read(m, off):
    w = m.w
    ite_stack = []
    while True:
        k = m.k
        if k == 'base':
            r = z3.Select(m.a, bv(off, 64))
            break
        if k == 'const':
            r = m.a
            break
        if k == 'lit':
            if isint(off):
                r = m.a[off] if off < len(m.a) else 0
                break
            arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
            for i, x in enumerate(m.a):
                if x:
                    arr = z3.Store(arr, z3.BitVecVal(i, 64), z3.BitVecVal(x, 8))
            r = z3.Select(arr, bv(off, 64))
            break
        if k == 'store':
            c = eq(off, m.a)
            if isint(c):
                if c:
                    r = m.b
                    break
                m = m.p
                continue
            ite_stack.append((c, m.b))
            m = m.p
            continue
        if k == 'copy':  # [a, a+b) = c[d + i]
            rel = sub(off, m.a)
            c = ult(rel, m.b)
            if isint(c) and not c:
                m = m.p
                continue
            sv = mem_read(m.c, add(rel, m.d))
            if isint(c):
                r = sv
                break
            ite_stack.append((c, sv))
            m = m.p
            continue
        if k == 'fill':
            rel = sub(off, m.a)
            c = ult(rel, m.b)
            if isint(c):
                if c:
                    r = m.c
                    break
                m = m.p
                continue
            ite_stack.append((c, m.c))
            m = m.p
            continue
        raise AssertionError(k)
    for c, v in reversed(ite_stack):
        r = ite(c, v, r, w)
    return r


# ------------------------------------------------------------------ regions
class Region:
    __slots__ = ('rid', 'name', 'size', 'cells', 'br', 'alive', 'ro', 'zero', 'kind', 'lazy', 'fn', 'tag')

    def __init__(self, rid, name, size, kind):
        self.rid = rid; self.name = name; self.size = size; self.kind = kind
        self.cells = {}
        self.br = ()
        self.alive = True
        self.ro = False
        self.zero = False
        self.lazy = None
        self.fn = None
        self.tag = None

    def clone(self):
        r = Region.__new__(Region)
        r.rid = self.rid; r.name = self.name; r.size = self.size; r.kind = self.kind
        r.cells = dict(self.cells)
        r.br = self.br
        r.alive = self.alive
        r.ro = self.ro
        r.zero = self.zero
        r.lazy = self.lazy
        r.fn = self.fn
        r.tag = self.tag
        return r


class Frame:
    __slots__ = ('fn', 'loc', 'blk', 'prev', 'i', 'allocas', 'res', 'next', 'va', 'hook')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.loc = dict(self.loc); f.blk = self.blk; f.prev = self.prev; f.i = self.i
        f.allocas = list(self.allocas); f.res = self.res; f.next = self.next; f.va = self.va; f.hook = self.hook
        return f


class Unwind(Exception):
    pass


STD_EXC = {'@_ZTISt9bad_alloc': '@_ZTISt9exception', '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt12length_error': '@_ZTISt11logic_error',
           '@_ZTISt12out_of_range': '@_ZTISt11logic_error', '@_ZTISt16invalid_argument': '@_ZTISt11logic_error',
           '@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt8bad_cast': '@_ZTISt9exception', '@_ZTISt14overflow_error': '@_ZTISt13runtime_error',
           '@_ZTISt17bad_function_call': '@_ZTISt9exception', '@_ZTISt9exception': ''}


class State:
    __slots__ = ('pc', 'regs', 'frames', 'pending', 'inputs', 'uc', 'invs', 'hooks', 'ret', 'facts', 'model', 'pathlog', 'probes', 'on_throw', 'exc')

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.regs = dict(self.regs)
        s.frames = [f.copy() for f in self.frames]
        s.pending = self.pending
        s.inputs = list(self.inputs)
        s.uc = dict(self.uc)
        s.invs = self.invs
        s.hooks = self.hooks
        s.ret = self.ret
        s.facts = self.facts
        s.model = self.model
        s.pathlog = self.pathlog
        s.probes = self.probes
        s.on_throw = self.on_throw
        s.exc = self.exc
        return s


class Oblig:
    def __init__(self, name, loc, kind):
        self.name = name; self.loc = loc; self.kind = kind
        self.n = 0
        self.time = 0.0
        self.status = 'discharged'
        self.fail = None
        self.backends = {}


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.next_rid = 1000
        self.fresh_n = 0
        self.grid = {}       # global name -> rid
        self.gname = {}
        self.eh_ids = {}
        self.obl = {}
        self.covers = {}
        self.probe = 0       # >0: obligations are not recorded (invariant search)
        self.nocheck = 0     # >0: do not ask the solver about branches
        self.tout = self.opts.get('timeout', 20000)
        self.queries = 0
        self.solver_time = 0.0
        self.deadline = time.time() + self.opts.get('budget', 600)
        self.funcs_seen = set()
        self.ext_seen = set()
        self.loops_info = {}
        self.replace = {}
        self.solver = z3.Solver()
        self.sstack = []
        self.axioms = []
        self.errors = []
        self.ufs = {}
        self.ends = 0
        self.dump = self.opts.get('dump')
        self.trace = self.opts.get('trace')
        self.ctor_done = False
        import builtins_vc
        self.builtins = builtins_vc.table(self)

    # ---- fresh
    def fresh(self, name, w):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        if w == 1:
            return z3.Bool(n)
        return z3.BitVec(n, w)

    def fresh_arr(self, name, w=8):
        self.fresh_n += 1
        return Mem('base', w, a=z3.Array('%s!%d' % (name, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(w)))

    # ---- solver
    def _sync(self, pc):
        st = self.sstack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, s, extra, timeout=None):
        """satisfiability of pc + extra; returns ('sat',model)/('unsat',None)/('unknown',None)"""
        if time.time() > self.deadline:
            raise Budget()
        self.queries += 1
        t = time.time()
        full = timeout or self.tout
        try:
            self._sync(s.pc)
            self.solver.set('timeout', min(300, full))
            r = self.solver.check(*[tobool(e) for e in extra])
            if r == z3.unsat:
                self.last_backend = 'z3-incremental'
                return ('unsat', None)
            if r == z3.sat:
                return ('sat', self.solver.model())
            s2 = z3.Solver()
            s2.set('timeout', full)
            for c in s.pc:
                s2.add(c)
            for e in extra:
                s2.add(tobool(e))
            job = Cvc5(s2, full)
            t_end = time.time() + full / 1000.0
            r5 = None
            try:
                slice_ = 700
                while True:
                    if r5 is None:
                        r5 = job.poll()
                    if r5 == 'unsat':
                        self.last_backend = 'cvc5'
                        return ('unsat', None)
                    left = int((t_end - time.time()) * 1000)
                    if left <= 0 or (r5 is not None and slice_ > 6000):
                        break
                    # a fresh solver per slice: z3 does not resume an interrupted check
                    s2.set('timeout', max(50, min(slice_, left)))
                    r = s2.check()
                    if r == z3.unsat:
                        self.last_backend = 'z3'
                        return ('unsat', None)
                    if r == z3.sat:
                        return ('sat', s2.model())
                    slice_ *= 3
                if r5 is None:
                    r5 = job.wait(0.3)
                if r5 == 'unsat':
                    self.last_backend = 'cvc5'
                    return ('unsat', None)
                if r5 == 'sat':
                    return ('sat', None)
            finally:
                job.stop()
            return ('unknown', None)
        finally:
            t = time.time() - t
            self.solver_time += t
            if self.trace and t > 0.5:
                import traceback
                print('SLOW %.1f' % t, self.where(s) if s.frames else '', [x.name for x in traceback.extract_stack()[-4:-1]], str(extra)[:300].replace('\n', ' '))

    def feasible(self, s, c):
        if isint(c):
            return bool(c)
        if self.nocheck:
            return True
        if s.model is not None:
            try:
                v = s.model.eval(tobool(c), model_completion=True)
                if z3.is_true(v):
                    return True
            except z3.Z3Exception:
                pass
        r, m = self.check(s, [c], 10000)
        if r == 'unsat':
            return False
        if m is not None:
            s.model = m
        return True

    def assume(self, s, c):
        """returns False when the path dies"""
        if isint(c):
            return bool(c)
        s.pc.append(tobool(c))
        if s.model is not None:
            try:
                if not z3.is_true(s.model.eval(tobool(c), model_completion=True)):
                    s.model = None
            except z3.Z3Exception:
                s.model = None
        return True

    def must(self, s, c):
        """is c implied by the path condition"""
        if isint(c):
            return bool(c)
        if s.model is not None:
            try:
                if z3.is_false(s.model.eval(tobool(c), model_completion=True)):
                    return False
            except z3.Z3Exception:
                pass
        r, m = self.check(s, [lnot(c)], 10000)
        if r == 'sat':
            s.model = s.model or None
        return r == 'unsat'

    def oblige(self, s, c, name, kind, dbg=None, at=None):
        """obligation: c holds here.  Afterwards c is assumed."""
        if self.nocheck:
            return
        if self.probe:
            if isint(c):
                if not c:
                    raise PathEnd()
                return
            self.assume(s, c)
            return
        loc = at[0] if at else self.mod.loc(dbg) if dbg is not None else self.where(s)
        key = (kind, name, loc)
        o = self.obl.get(key)
        if o is None:
            o = self.obl[key] = Oblig(name, loc, kind)
        o.n += 1
        if isint(c) and c:
            o.backends['constant'] = o.backends.get('constant', 0) + 1
            return
        t = time.time()
        r, m = self.check(s, [lnot(c)])
        o.time += time.time() - t
        if r == 'unsat':
            b = self.last_backend
            o.backends[b] = o.backends.get(b, 0) + 1
            if self.dump is not None:
                self.dump(s.pc, lnot(c), key)
        else:
            st = 'failed' if r == 'sat' else 'unknown'
            if o.status != 'failed':
                o.status = st
            if o.fail is None or (st == 'failed' and o.fail['result'] == 'unknown'):
                o.fail = {'result': r, 'inputs': self.show_inputs(s, m), 'stack': at[1] if at else self.stack(s), 'cond': str(c)[:600]}
        if isint(c):
            raise PathEnd()
        if not self.assume(s, c) or not self.feasible(s, 1):
            raise PathEnd()
        if r != 'unsat':
            if self.check(s, [], 5000)[0] == 'unsat':
                raise PathEnd()

    def show_inputs(self, s, m):
        out = []
        if m is None:
            return out
        for n, t in s.inputs:
            try:
                if isint(t):
                    out.append((n, t))
                elif isinstance(t, Mem):
                    continue
                else:
                    v = m.eval(t, model_completion=True)
                    out.append((n, v.as_long() if z3.is_bv_value(v) else (1 if z3.is_true(v) else 0)))
            except Exception as e:
                out.append((n, '?'))
        return out

    def where(self, s):
        for f in reversed(s.frames):
            ins = f.fn.blocks[f.blk]
            d = ins[min(f.i, len(ins) - 1)].dbg
            if d is not None:
                l = self.mod.loc(d)
                if '/repo/' in l or 'contracts' in l:
                    return l
        return '?'

    def stack(self, s):
        out = []
        for f in reversed(s.frames):
            ins = f.fn.blocks[f.blk]
            d = ins[min(f.i, len(ins) - 1)].dbg
            out.append('%s at %s' % (f.fn.name, self.mod.loc(d) if d else '?'))
        return out[:30]

    # ---- regions
    def region(self, s, rid):
        r = s.regs.get(rid)
        if r is None:
            nm = self.gname.get(rid)
            if nm is None:
                raise Unsupported('dangling region %s' % rid)
            r = self.make_global(s, nm, rid)
            s.regs[rid] = r
        return r

    def wregion(self, s, rid):
        r = self.region(s, rid).clone()
        s.regs[rid] = r
        return r

    def alloc(self, s, name, size, kind, t=None):
        self.next_rid += 1
        r = Region(self.next_rid, name, size, kind)
        if t is not None:
            self.auto_bytes(r, t, 0)
        s.regs[r.rid] = r
        return Ptr(r.rid, 0)

    def auto_bytes(self, r, t, off):
        t = self.mod.types.resolve(t)
        if t[0] == 'arr':
            if t[2] == ('i', 8):
                if t[1] > 0:
                    r.br += ((off, off + t[1], self.fresh_arr(r.name)),)
            elif t[1] <= 64:
                es = self.mod.types.sa(t[2])[0]
                for i in range(t[1]):
                    self.auto_bytes(r, t[2], off + i * es)
        elif t[0] == 'st':
            for f, o in zip(t[1], self.mod.types.offs(t)):
                self.auto_bytes(r, f, off + o)

    def gptr(self, nm):
        nm = self.mod.aliases.get(nm, nm)
        rid = self.grid.get(nm)
        if rid is None:
            self.next_rid += 1
            rid = self.next_rid
            self.grid[nm] = rid
            self.gname[rid] = nm
        return Ptr(rid, 0)

    def make_global(self, s, nm, rid):
        if nm in self.mod.fraw or nm in self.mod.decl:
            r = Region(rid, nm, 1, 'func')
            r.fn = nm
            return r
        g = self.mod.global_def(nm)
        if g is None:
            raise Unsupported('unknown global ' + nm)
        t, init, const = g
        size = self.mod.types.sa(t)[0]
        r = Region(rid, nm, size, 'global')
        r.ro = const
        rt = self.mod.types.resolve(t)
        if init is None:
            if rt[0] == 'arr' and rt[2] == ('i', 8):
                r.br = ((0, size, self.fresh_arr(nm)),)
            return r
        if init[0] == 'str':
            r.br = ((0, size, Mem('lit', 8, a=init[1])),)
            return r
        if init[0] == 'zero':
            r.zero = True
            if rt[0] == 'arr' and rt[2] == ('i', 8):
                r.br = ((0, size, Mem('const', 8, a=0)),)
            else:
                self.auto_bytes(r, t, 0)
                r.br = tuple((lo, hi, Mem('const', 8, a=0)) for lo, hi, m in r.br)
            return r
        r.zero = True
        self.init_cells(s, r, t, init, 0)
        return r

    def init_cells(self, s, r, t, v, off):
        rt = self.mod.types.resolve(t)
        if v[0] == 'agg':
            if rt[0] == 'arr':
                es = self.mod.types.sa(rt[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(s, r, et, ev, off + i * es)
            else:
                for (et, ev), o in zip(v[1], self.mod.types.offs(rt)):
                    self.init_cells(s, r, et, ev, off + o)
        elif v[0] == 'str':
            for i, b in enumerate(v[1]):
                r.cells[off + i] = (1, b)
        elif v[0] == 'zero':
            pass
        elif v[0] == 'undef':
            pass
        else:
            sz = self.mod.types.sa(t)[0]
            r.cells[off] = (sz, self.const(s, t, v))

    # ---- constants
    def const(self, s, t, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.gptr(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'fp':
            return Opq()
        if k == 'agg':
            return [self.const(s, et, ev) for et, ev in v[1]]
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.const(s, ('ptr',), v[3][0][1])
                idx = [(it, self.const(s, it, iv)) for it, iv in v[3][1:]]
                return self.gep(s, v[2], base, idx)
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.const(s, v[2], v[3])
            if op in ('add', 'sub', 'and', 'or'):
                a = self.const(s, v[2][0][0], v[2][0][1])
                b = self.const(s, v[2][1][0], v[2][1][1])
                return self.binop(s, op, v[2][0][0], a, b)
            if op == 'icmp':
                a = self.const(s, v[3][0][0], v[3][0][1])
                b = self.const(s, v[3][1][0], v[3][1][1])
                return self.icmp(s, v[2], v[3][0][0], a, b)
        raise Unsupported('const %r' % (v,))

    def zero(self, t):
        t = self.mod.types.resolve(t)
        if t[0] == 'i':
            return 0
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'f':
            return Opq()
        if t[0] == 'arr':
            return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == 'st':
            return [self.zero(f) for f in t[1]]
        raise Unsupported('zero %r' % (t,))

    def val(self, s, f, t, v):
        if v[0] == 'l':
            x = f.loc.get(v[1])
            if x is None:
                raise Unsupported('undefined local %s in %s' % (v[1], f.fn.name))
            if x is UNDEF:
                return self.undef(t)
            return x
        if v[0] == 'c':
            return v[1]
        x = self.const(s, t, v)
        if x is UNDEF:
            return self.undef(t)
        return x

    def undef(self, t):
        t = self.mod.types.resolve(t)
        if t[0] == 'i':
            return self.fresh('undef', t[1])
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'f':
            return Opq()
        if t[0] == 'st':
            return [UNDEF for f in t[1]]
        if t[0] == 'arr':
            return [UNDEF for _ in range(t[1])]
        raise Unsupported('undef %r' % (t,))

    # ---- gep
    def gep(self, s, bt, base, idx):
        if not isinstance(base, Ptr):
            if base is UNDEF:
                raise Unsupported('gep on undef')
            raise Unsupported('gep on non-pointer')
        ty = self.mod.types
        off = base.o
        t = bt
        first = True
        for it, iv in idx:
            if not isint(iv):
                w = it[1]
                if w < 64:
                    iv = norm(z3.SignExt(64 - w, iv))
            else:
                w = it[1]
                if w < 64 and iv >> (w - 1):
                    iv = (iv - (1 << w)) & M64
            if first:
                sz = ty.sa(t)[0]
                first = False
                off = add(off, self.mulc(iv, sz))
                continue
            t = ty.resolve(t)
            if t[0] == 'st':
                off = add(off, ty.offs(t)[iv])
                t = t[1][iv]
            elif t[0] in ('arr', 'vec'):
                if t[2] == ('i', 8) and t[1] > 1 and base.r and isint(off) and s is not None:
                    self.declare_bytes(s, base.r, off, off + t[1])
                sz = ty.sa(t[2])[0]
                off = add(off, self.mulc(iv, sz))
                t = t[2]
            else:
                raise Unsupported('gep into %r' % (t,))
        return Ptr(base.r, off)

    def mulc(self, x, c):
        if isint(x):
            return (x * c) & M64
        if c == 1:
            return x
        return norm(x * z3.BitVecVal(c, 64))

    def declare_bytes(self, s, rid, lo, hi):
        r = self.region(s, rid)
        for a, b, m in r.br:
            if isint(a) and a <= lo and (b is None or (isint(b) and hi <= b)):
                return
            if a == 0 and not isint(b):
                return
        if r.kind == 'func':
            return
        if isint(r.size) and hi > r.size:
            return
        if r.ro:
            return
        m = Mem('const', 8, a=0) if r.zero else self.fresh_arr(r.name)
        r2 = r.clone()
        nbr = []
        for a, b, mm in r.br:
            if a >= lo and b <= hi:   # nested range absorbed
                m = Mem('copy', 8, p=m, a=a, b=b - a, c=mm, d=a)
            else:
                nbr.append((a, b, mm))
        for o in sorted(r.cells):
            n, v = r.cells[o]
            if lo <= o and o + n <= hi:
                if isinstance(v, (Ptr, Opq, loops.Dead)):
                    return
                m = self.store_bytes(m, o, n, v)
                del r2.cells[o]
        nbr.append((lo, hi, m))
        r2.br = tuple(nbr)
        s.regs[rid] = r2

    def store_bytes(self, m, off, n, v):
        w = n * 8
        for i in range(n):
            if isint(v):
                b = (v >> (8 * i)) & 255
            elif z3.is_bool(v):
                b = norm(bv(v, 8)) if i == 0 else 0
            elif n == 1:
                b = v
            else:
                b = norm(z3.Extract(8 * i + 7, 8 * i, v))
            m = Mem('store', 8, p=m, a=add(off, i), b=b)
        return m

    def load_bytes(self, m, off, n):
        bs = [mem_read(m, add(off, i)) for i in range(n)]
        if all(isint(b) for b in bs):
            x = 0
            for i, b in enumerate(bs):
                x |= b << (8 * i)
            return x
        if n == 1:
            return bs[0]
        return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    # ---- access check
    def locate(self, s, p, n, what):
        """bounds obligation; returns (region, byterange index or None)"""
        if not isinstance(p, Ptr):
            raise Unsupported('%s through a non-pointer %r' % (what, p))
        if p.r == 0:
            self.oblige(s, 0, 'null-dereference', 'memory')
            raise PathEnd()
        r = self.region(s, p.r)
        if not r.alive:
            self.oblige(s, 0, 'use-after-free:' + str(r.name), 'memory')
            raise PathEnd()
        o = p.o
        if isint(o):
            for i, (lo, hi, m) in enumerate(r.br):
                if lo <= o and (hi is None or not isint(hi) or o + n <= hi):
                    if isint(hi) or hi is None:
                        return r, i
                    self.oblige(s, self.inb(o, n, lo, hi), what + '-in-bounds', 'memory')
                    return r, i
                if isint(lo) and isint(hi) and o < hi and o + n > lo:  # partial overlap
                    raise Unsupported('partial overlap of byte range')
            if isint(r.size):
                if o + n > r.size:
                    self.oblige(s, 0, what + '-in-bounds', 'memory')
                    raise PathEnd()
            elif r.size is not None:
                self.oblige(s, self.inb(o, n, 0, r.size), what + '-in-bounds', 'memory')
            return r, None
        # symbolic offset
        if not r.br:
            self.promote(s, r)
            r = self.region(s, p.r)
        i = 0
        if len(r.br) > 1:
            m = s.model
            if m is None:
                res, m = self.check(s, [], 10000)
                if m is None:
                    raise Unsupported('no model for symbolic offset')
                s.model = m
            ov = m.eval(o, model_completion=True).as_long()
            for j, (lo, hi, mm) in enumerate(r.br):
                h = hi if isint(hi) else M64
                if lo <= ov < h:
                    i = j
                    break
            else:
                self.oblige(s, 0, what + '-in-bounds', 'memory')
                raise PathEnd()
        lo, hi, mm = r.br[i]
        if hi is not None:
            self.oblige(s, self.inb(o, n, lo, hi), what + '-in-bounds', 'memory')
        return r, i

    def inb(self, o, n, lo, hi):
        """lo <= o and o + n <= hi without wrap-around"""
        if not isint(lo) or lo != 0:
            o = sub(o, lo)
            hi = sub(hi, lo)
        return land(ule(n, hi), ule(o, sub(hi, n)))

    def promote(self, s, r):
        if not isint(r.size) and r.size is not None and r.cells:
            raise Unsupported('promote')
        for o, (n, v) in r.cells.items():
            if isinstance(v, (Ptr, Opq, loops.Dead)):
                raise Unsupported('symbolic offset into a structured region %s (%s)' % (r.name, self.where(s)))
        if r.kind == 'func':
            raise Unsupported('access to function')
        m = Mem('const', 8, a=0) if r.zero else self.fresh_arr(r.name)
        r2 = r.clone()
        for o in sorted(r.cells):
            n, v = r.cells[o]
            m = self.store_bytes(m, o, n, v)
        r2.cells = {}
        r2.br = ((0, r.size, m),)
        s.regs[r.rid] = r2

    # ---- load / store
    def load(self, s, p, t):
        t = self.mod.types.resolve(t)
        if t[0] in ('st', 'arr'):
            out = []
            if t[0] == 'st':
                for f, o in zip(t[1], self.mod.types.offs(t)):
                    out.append(self.load(s, Ptr(p.r, add(p.o, o)), f))
            else:
                es = self.mod.types.sa(t[2])[0]
                for i in range(t[1]):
                    out.append(self.load(s, Ptr(p.r, add(p.o, i * es)), t[2]))
            return out
        n = self.mod.types.sa(t)[0]
        r, bi = self.locate(s, p, n, 'load')
        if r.lazy is not None:
            raise LazyLoad(r, p, t)
        if bi is not None:
            if t[0] == 'ptr':
                x = self.load_bytes(r.br[bi][2], p.o, n)
                if isint(x) and x == 0:
                    return NULL
                raise Unsupported('pointer from bytes')
            if t[0] == 'f':
                return Opq()
            x = self.load_bytes(r.br[bi][2], p.o, n)
            return self.trunc_to(x, n * 8, t)
        if s.probes is not None and n == 8:
            s.probes.add((p.r, p.o))
        c = r.cells.get(p.o)
        if c is not None and c[0] == n:
            v = c[1]
            return self.coerce(s, v, t, n)
        # mixed sizes
        v = self.load_mixed(s, r, p.o, n, t)
        return v

    def coerce(self, s, v, t, n):
        if isinstance(v, Ptr):
            if t[0] == 'i' and t[1] == 64 or t[0] == 'ptr':
                return v
            raise Unsupported('pointer as %r' % (t,))
        if isinstance(v, Opq):
            if t[0] == 'i':
                return self.fresh('fpbits', t[1])
            return v
        if v is UNDEF:
            return self.undef(t)
        if v is loops.DEAD:
            raise Unsupported('an object made by an earlier iteration is used at %s' % self.where(s))
        if t[0] == 'ptr':
            if isint(v) and v == 0:
                return NULL
            raise Unsupported('integer %s used as pointer at %s' % (str(v)[:80], self.where(s)))
        if t[0] == 'f':
            return Opq()
        return self.trunc_to(v, n * 8, t)

    def trunc_to(self, x, have, t):
        w = t[1]
        if isint(x):
            return x & ((1 << w) - 1)
        if z3.is_bool(x):
            if w == 1:
                return x
            return norm(bv(x, w))
        sw = x.size()
        if sw == w:
            return x
        if sw < w:
            return norm(z3.ZeroExt(w - sw, x))
        x = norm(z3.Extract(w - 1, 0, x))
        if w == 1 and not isint(x):
            x = norm(x == 1)
        return x

    def load_mixed(self, s, r, o, n, t):
        if n == 16:
            raise Unsupported('16-byte load')
        bs = []
        missing = False
        for i in range(n):
            b = self.cell_byte(r, o + i)
            if b is None:
                missing = True
            bs.append(b)
        if all(b is None for b in bs):
            if r.zero:
                v = NULL if t[0] == 'ptr' else 0
            elif t[0] == 'ptr':
                raise Unsupported('uninitialised pointer read in %s+%d at %s' % (r.name, o, self.where(s)))
            elif t[0] == 'f':
                v = Opq()
            else:
                v = self.fresh('uninit_%s_%d' % (clean(r.name), o), n * 8)
            if not r.ro:
                r2 = self.wregion(s, r.rid)
                r2.cells[o] = (n, v)
            if t[0] == 'i':
                return self.trunc_to(v, n * 8, t)
            return v
        for i in range(n):
            if bs[i] is None:
                bs[i] = 0 if r.zero else self.fresh('uninit', 8)
        if any(b is PTRB for b in bs):
            raise Unsupported('partial pointer read %s+%d at %s' % (r.name, o, self.where(s)))
        if t[0] == 'ptr':
            if all(isint(b) and b == 0 for b in bs):
                return NULL
            raise Unsupported('pointer from mixed bytes')
        if t[0] == 'f':
            return Opq()
        if all(isint(b) for b in bs):
            x = 0
            for i, b in enumerate(bs):
                x |= b << (8 * i)
            return x & ((1 << t[1]) - 1)
        x = norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if n > 1 else bs[0]
        return self.trunc_to(x, n * 8, t)

    def cell_byte(self, r, o):
        for d in range(0, 16):
            c = r.cells.get(o - d)
            if c is not None:
                n, v = c
                if d >= n:
                    return None
                if isinstance(v, Ptr):
                    if v.r == 0 and isint(v.o) and v.o == 0:
                        return 0
                    return PTRB
                if v is loops.DEAD:
                    return PTRB
                if isinstance(v, Opq) or v is UNDEF:
                    return self.fresh('b', 8)
                if isint(v):
                    return (v >> (8 * d)) & 255
                if z3.is_bool(v):
                    return bv(v, 8) if d == 0 else 0
                if v.size() < n * 8:
                    v = z3.ZeroExt(n * 8 - v.size(), v)
                return norm(z3.Extract(8 * d + 7, 8 * d, v)) if n > 1 else v
        return None

    def clear_cells(self, r, o, n):
        """remove/split cells overlapping [o, o+n)"""
        for d in range(-15, n):
            k = o + d
            c = r.cells.get(k)
            if c is None:
                continue
            cn, cv = c
            if k + cn <= o:
                continue
            if k >= o and k + cn <= o + n:
                del r.cells[k]
                continue
            # partial overlap: split into bytes
            bs = [self.cell_byte(r, k + i) for i in range(cn)]
            if any(b is PTRB for b in bs):
                bs = [None if b is PTRB else b for b in bs]
            del r.cells[k]
            for i in range(cn):
                if not (o <= k + i < o + n) and bs[i] is not None:
                    r.cells[k + i] = (1, bs[i])

    def store(self, s, p, t, v):
        t = self.mod.types.resolve(t)
        if t[0] in ('st', 'arr'):
            if t[0] == 'st':
                for f, o, x in zip(t[1], self.mod.types.offs(t), v):
                    self.store(s, Ptr(p.r, add(p.o, o)), f, x)
            else:
                es = self.mod.types.sa(t[2])[0]
                for i in range(t[1]):
                    self.store(s, Ptr(p.r, add(p.o, i * es)), t[2], v[i])
            return
        if t[0] == 'vec':
            raise Unsupported('vector store')
        n = self.mod.types.sa(t)[0]
        if v is UNDEF:
            v = self.undef(t)
        r, bi = self.locate(s, p, n, 'store')
        if r.ro:
            self.oblige(s, 0, 'write-to-readonly:' + str(r.name), 'memory')
            raise PathEnd()
        if t[0] == 'i' and t[1] == 1 and not isint(v):
            v = bv(v, 8)
        elif t[0] == 'i' and not isint(v) and not isinstance(v, (Ptr, Opq)) and v.size() < n * 8:
            v = z3.ZeroExt(n * 8 - v.size(), v)
        if bi is not None:
            lo, hi, m = r.br[bi]
            if isinstance(v, Ptr):
                if v.r == 0 and v.o == 0:
                    v = 0
                else:
                    # a pointer kept in raw bytes: turn the range back into cells if it is untouched
                    if isint(lo) and isint(hi) and m.k == 'base' and r.kind != 'global':
                        r2 = self.wregion(s, p.r)
                        r2.br = tuple(x for j, x in enumerate(r.br) if j != bi)
                        r2.cells[p.o] = (n, v)
                        return
                    raise Unsupported('pointer stored into bytes of %s at %s' % (r.name, self.where(s)))
            if isinstance(v, Opq):
                v = self.fresh('fp', n * 8)
            r2 = self.wregion(s, p.r)
            m = self.store_bytes(m, p.o, n, v)
            r2.br = tuple((lo, hi, m) if j == bi else x for j, x in enumerate(r.br))
            return
        r2 = self.wregion(s, p.r)
        c = r2.cells.get(p.o)
        if c is None or c[0] != n:
            self.clear_cells(r2, p.o, n)
        r2.cells[p.o] = (n, v)

    # ---- bulk copies
    def memcpy(self, s, d, sp, n, what='memcpy'):
        if isint(n) and n == 0:
            return
        if isint(n) and n <= 4096:
            # cell-wise when both are structured
            rd, bd = self.locate(s, d, n, what + '-dst') if not self._spans(s, d, n) else (self.region(s, d.r), -1)
            rs, bs = self.locate(s, sp, n, what + '-src') if not self._spans(s, sp, n) else (self.region(s, sp.r), -1)
            if bd is None or bs is None or bd == -1 or bs == -1:
                return self.copy_cells(s, d, sp, n)
        else:
            z = eq(n, 0)
            if not isint(n):
                # n may be zero: bounds only matter when n > 0
                if self.must(s, z):
                    return
            rd, bd = self.locate_n(s, d, n, what + '-dst')
            rs, bs = self.locate_n(s, sp, n, what + '-src')
        if rd.ro:
            self.oblige(s, 0, 'write-to-readonly:' + str(rd.name), 'memory')
            raise PathEnd()
        sm = rs.br[bs][2]
        r2 = self.wregion(s, d.r)
        lo, hi, m = r2.br[bd]
        m = Mem('copy', 8, p=m, a=d.o, b=n, c=sm, d=sp.o)
        r2.br = tuple((lo, hi, m) if j == bd else x for j, x in enumerate(r2.br))

    def _spans(self, s, p, n):
        """does [p,p+n) cover whole byte ranges plus cells"""
        if p.r == 0 or not isint(p.o):
            return False
        r = self.region(s, p.r)
        for lo, hi, m in r.br:
            if isint(hi) and isint(lo) and lo < p.o + n and hi > p.o and not (lo <= p.o and p.o + n <= hi):
                return True
        return False

    def locate_n(self, s, p, n, what):
        """like locate for a symbolic, possibly zero length"""
        if not isinstance(p, Ptr):
            raise Unsupported(what)
        nz = lnot(eq(n, 0))
        if p.r == 0:
            self.oblige(s, lnot(nz), 'null-dereference', 'memory')
            raise PathEnd()
        r = self.region(s, p.r)
        if not r.alive:
            self.oblige(s, lnot(nz), 'use-after-free:' + str(r.name), 'memory')
            raise PathEnd()
        if not r.br:
            self.promote(s, r)
            r = self.region(s, p.r)
        i = 0
        if len(r.br) > 1:
            m = s.model
            if m is None:
                res, m = self.check(s, [], 10000)
                if m is None:
                    raise Unsupported('no model for symbolic offset')
                s.model = m
            ov = p.o if isint(p.o) else m.eval(p.o, model_completion=True).as_long()
            for j, (lo, hi, mm) in enumerate(r.br):
                if lo <= ov and (not isint(hi) or ov <= hi):
                    i = j
                    if not isint(hi) or ov < hi:
                        break
        lo, hi, mm = r.br[i]
        if hi is not None:
            c = self.inb(p.o, n, lo, hi)
            if not (isint(c) and c):
                c = lnot(land(nz, lnot(c)))
            self.oblige(s, c, what + '-in-bounds', 'memory')
        return r, i

    def copy_cells(self, s, d, sp, n):
        rs = self.region(s, sp.r)
        if not isint(d.o) or not isint(sp.o):
            # bytes at a symbolic offset on one side
            vals = []
            for i in range(n):
                vals.append(self.load(s, Ptr(sp.r, add(sp.o, i)), ('i', 8)))
            for i in range(n):
                self.store(s, Ptr(d.r, add(d.o, i)), ('i', 8), vals[i])
            return
        # gather items
        items = []
        i = 0
        while i < n:
            o = sp.o + i
            done = False
            for lo, hi, m in rs.br:
                if isint(lo) and lo <= o and (not isint(hi) or o < hi):
                    e = n - i if not isint(hi) else min(n - i, hi - o)
                    items.append(('bytes', i, e, m, o))
                    i += e
                    done = True
                    break
            if done:
                continue
            c = rs.cells.get(o)
            if c is not None and i + c[0] <= n:
                items.append(('cell', i, c[0], c[1]))
                i += c[0]
                continue
            b = self.cell_byte(rs, o)
            if b is PTRB:
                raise Unsupported('partial pointer copy')
            if b is None:
                if rs.zero:
                    items.append(('cell', i, 1, 0))
                else:
                    items.append(('none', i, 1))
                i += 1
                continue
            items.append(('cell', i, 1, b))
            i += 1
        for it in items:
            o = d.o + it[1]
            rd = self.region(s, d.r)
            bi = None
            for j, (lo, hi, m) in enumerate(rd.br):
                if isint(lo) and lo <= o and (not isint(hi) or o + it[2] <= hi):
                    bi = j
            if it[0] == 'bytes':
                if bi is None:
                    if it[2] <= 16:
                        for x in range(it[2]):
                            b = mem_read(it[3], add(it[4], x))
                            self.store(s, Ptr(d.r, o + x), ('i', 8), b)
                        continue
                    r2 = self.wregion(s, d.r)
                    self.clear_cells(r2, o, it[2])
                    r2.br = tuple(x for x in r2.br if not (x[0] >= o and x[1] <= o + it[2])) + ((o, o + it[2], Mem('copy', 8, p=self.fresh_arr('c'), a=o, b=it[2], c=it[3], d=it[4])),)
                    continue
                r2 = self.wregion(s, d.r)
                lo, hi, m = r2.br[bi]
                m = Mem('copy', 8, p=m, a=o, b=it[2], c=it[3], d=it[4])
                r2.br = tuple((lo, hi, m) if j == bi else x for j, x in enumerate(r2.br))
            elif it[0] == 'cell':
                v = it[3]
                if bi is not None:
                    if isinstance(v, Ptr):
                        raise Unsupported('pointer copied into bytes')
                    if isinstance(v, Opq):
                        v = self.fresh('fp', it[2] * 8)
                    r2 = self.wregion(s, d.r)
                    lo, hi, m = r2.br[bi]
                    m = self.store_bytes(m, o, it[2], v)
                    r2.br = tuple((lo, hi, m) if j == bi else x for j, x in enumerate(r2.br))
                else:
                    r2 = self.wregion(s, d.r)
                    if rd.ro:
                        self.oblige(s, 0, 'write-to-readonly', 'memory')
                    self.clear_cells(r2, o, it[2])
                    r2.cells[o] = (it[2], v)
            else:
                if bi is None:
                    r2 = self.wregion(s, d.r)
                    self.clear_cells(r2, o, 1)

    def memset(self, s, d, val, n):
        if isint(n) and n == 0:
            return
        v8 = val if isint(val) else val
        if isint(n) and isint(d.o):
            if not self._spans(s, d, n):
                r, bi = self.locate(s, d, n, 'memset')
            else:
                r, bi = self.region(s, d.r), -1
            r2 = self.wregion(s, d.r)
            if bi is not None and bi >= 0:
                lo, hi, m = r2.br[bi]
                m = Mem('fill', 8, p=m, a=d.o, b=n, c=v8)
                r2.br = tuple((lo, hi, m) if j == bi else x for j, x in enumerate(r2.br))
                return
            nbr = []
            for lo, hi, m in r2.br:
                if isint(lo) and isint(hi) and lo >= d.o and hi <= d.o + n:
                    m = Mem('fill', 8, p=m, a=lo, b=hi - lo, c=v8)
                nbr.append((lo, hi, m))
            r2.br = tuple(nbr)
            inside = lambda o: any(lo <= o < hi for lo, hi, m in r2.br)
            self.clear_cells(r2, d.o, n)
            i = 0
            while i < n:
                o = d.o + i
                if inside(o):
                    i += 1
                    continue
                if o % 8 == 0 and i + 8 <= n and isint(v8):
                    r2.cells[o] = (8, v8 * 0x0101010101010101 if v8 else 0)
                    if v8 == 0:
                        r2.cells[o] = (8, 0)
                    i += 8
                else:
                    r2.cells[o] = (1, v8)
                    i += 1
            return
        r, bi = self.locate_n(s, d, n, 'memset')
        r2 = self.wregion(s, d.r)
        lo, hi, m = r2.br[bi]
        m = Mem('fill', 8, p=m, a=d.o, b=n, c=v8)
        r2.br = tuple((lo, hi, m) if j == bi else x for j, x in enumerate(r2.br))

    # ---- arithmetic
    def binop(self, s, op, t, a, b):
        t = self.mod.types.resolve(t)
        if t[0] == 'f':
            return Opq()
        if t[0] == 'vec':
            raise Unsupported('vector op')
        w = t[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(s, op, a, b, w)
        mask = (1 << w) - 1
        if w == 1:
            if isint(a) and isint(b):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
            A, B = tobool(a), tobool(b)
            if op in ('and', 'mul'):
                return norm(z3.And(A, B))
            if op == 'or':
                return norm(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                return norm(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(s, lnot(eq(b, 0, w)), 'division-by-zero', 'arith')
        if isint(a) and isint(b):
            if op == 'add':
                return (a + b) & mask
            if op == 'sub':
                return (a - b) & mask
            if op == 'mul':
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'ashr':
                return (sa >> min(b, w - 1)) & mask
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & mask
            return (sa - q * sb) & mask
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            return norm(A + B)
        if op == 'sub':
            return norm(A - B)
        if op == 'mul':
            return norm(A * B)
        if op == 'and':
            return norm(A & B)
        if op == 'or':
            return norm(A | B)
        if op == 'xor':
            return norm(A ^ B)
        if op == 'shl':
            return norm(A << B)
        if op == 'lshr':
            return norm(z3.LShR(A, B))
        if op == 'ashr':
            return norm(A >> B)
        if op == 'udiv':
            return norm(z3.UDiv(A, B))
        if op == 'urem':
            return norm(z3.URem(A, B))
        if op == 'sdiv':
            return norm(A / B)
        if op == 'srem':
            return norm(z3.SRem(A, B))
        raise Unsupported(op)

    def ptrop(self, s, op, a, b, w):
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa and a.r == 0:
            a = a.o; pa = False
        if pb and b.r == 0:
            b = b.o; pb = False
        if not pa and not pb:
            return self.binop(s, op, ('i', w), a, b)
        if op == 'add':
            if pa and not pb:
                return Ptr(a.r, add(a.o, b))
            if pb and not pa:
                return Ptr(b.r, add(b.o, a))
        if op == 'sub':
            if pa and pb:
                if a.r == b.r:
                    return sub(a.o, b.o)
                return self.fresh('ptrdiff', 64)  # unspecified
            if pa:
                return Ptr(a.r, sub(a.o, b))
        if op in ('and', 'or', 'xor') and pa != pb:
            p, k = (a, b) if pa else (b, a)
            if isint(k):
                if op == 'and' and k < 16:
                    if isint(p.o):
                        return p.o & k
                    return norm(p.o & z3.BitVecVal(k, 64))
                if op == 'and' and (k ^ M64) < 16:
                    if isint(p.o):
                        return Ptr(p.r, p.o & k)
                if op in ('or', 'xor') and k < 16 and isint(p.o):
                    return Ptr(p.r, (p.o | k) if op == 'or' else (p.o ^ k))
        if op == 'lshr' or op == 'shl':
            return self.fresh('hashptr', w)
        raise Unsupported('pointer arithmetic %s at %s' % (op, self.where(s)))

    def icmp(self, s, pred, t, a, b):
        t = self.mod.types.resolve(t)
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if not pa:
                a = Ptr(0, a)
            if not pb:
                b = Ptr(0, b)
            if a.r == b.r:
                w = 64
                a, b = a.o, b.o
            else:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                if a.r == 0 or b.r == 0:
                    # null compares below every object
                    lt = a.r == 0
                    return int(lt if pred in ('ult', 'ule', 'slt', 'sle') else not lt)
                # unrelated objects: either order
                lo, hi = min(a.r, b.r), max(a.r, b.r)
                lt = z3.Bool('order!%s!%s' % (lo, hi))
                if (a.r == lo) != (pred in ('ult', 'ule', 'slt', 'sle')):
                    lt = z3.Not(lt)
                return norm(lt)
        else:
            if t[0] == 'ptr':
                w = 64
            else:
                w = t[1]
        if w == 1:
            if pred == 'eq':
                return eq(a, b, 1)
            if pred == 'ne':
                return lnot(eq(a, b, 1))
            a, b = bv(a, 1), bv(b, 1)
        if isint(a) and isint(b):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred])
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return norm(r)

    # ---- execution
    def new_state(self):
        s = State.__new__(State)
        s.pc = []
        s.regs = {}
        s.frames = []
        s.pending = None
        s.inputs = []
        s.uc = {}
        s.invs = ()
        s.hooks = ()
        s.ret = None
        s.facts = None
        s.model = None
        s.pathlog = ()
        s.probes = None
        s.on_throw = None
        s.exc = None
        return s

    def push(self, s, fname, args, res=None, nxt=None, hook=None):
        f = self.mod.func(fname)
        if f is None:
            raise Unsupported('no body for ' + fname)
        self.funcs_seen.add(f.name)
        if len(s.frames) > 150:
            raise Unsupported('call depth')
        fr = Frame.__new__(Frame)
        fr.fn = f
        fr.loc = {}
        fr.blk = f.entry
        fr.prev = None
        fr.i = 0
        fr.allocas = []
        fr.res = res
        fr.next = nxt
        fr.va = args[len(f.params):]
        fr.hook = hook
        for (t, nm, at), v in zip(f.params, args):
            if 'byval' in at:
                sz = self.mod.types.sa(at['byval'])[0]
                p = self.alloc(s, 'byval', sz, 'stack', at['byval'])
                self.memcpy(s, p, v, sz)
                fr.allocas.append(p.r)
                v = p
            fr.loc[nm] = v
        s.frames.append(fr)
        if f.entry in f.loops:
            pass

    def run_function(self, s, fname, args):
        """explore a call from state s; yields finished states with s.ret"""
        depth = len(s.frames)
        self.push(s, fname, args, hook='stop')
        outs = self.explore([s], depth, None)
        return [x for x, why in outs if why == 'ret']

    def prove(self, name):
        """run a contract function from an arbitrary state; every obligation on the way is recorded in self.obl"""
        s = self.new_state()
        outs = self.run_function(s, name, [])
        self.ends += len(outs)
        return outs

    def explore(self, init, base, loop):
        """loop: None or (depth, header, body, mode)"""
        work = list(init)
        outs = []
        while work:
            s = work.pop()
            try:
                self.run(s, base, loop, work, outs)
            except PathEnd:
                pass
        return outs

    def eh_id(self, g):
        return self.eh_ids.setdefault(g, len(self.eh_ids) + 1)

    def eh_match(self, thrown, want):
        """is the thrown type the wanted one or derived from it?"""
        if thrown == want:
            return True
        if not thrown:
            return False
        if thrown in STD_EXC:
            return self.eh_match(STD_EXC[thrown], want)
        init = self.mod.globals.get(thrown)
        if init is None:
            raise Unsupported('hierarchy of exception type ' + thrown)
        return any(self.eh_match(b, want) for b in re.findall(r'@_ZTI[-$._A-Za-z0-9]+', init) if b != thrown)

    def unwind(self, s):
        """find the handler (or clean-up) of the exception in flight"""
        top = True
        while True:
            f = s.frames[-1]
            ins = f.fn.blocks[f.blk][f.i if top else f.i - 1]
            top = False
            if ins.op == 'invoke':
                pad = [i for i in f.fn.blocks[ins.a[3]] if i.op == 'landingpad'][0]
                sel = None
                for c in pad.a[0]:
                    if c == 'cleanup':
                        continue
                    if c == 'filter':
                        raise Unsupported('exception specification')
                    if c == 'null' or self.eh_match(s.exc[1], c):
                        sel = self.eh_id(c)
                        break
                if sel is None and 'cleanup' in pad.a[0] and f.hook != 'stop':
                    sel = 0
                if sel is not None:
                    s.exc = (s.exc[0], s.exc[1], sel, s.exc[3])
                    s.pending = ins.a[3]
                    return
            if f.hook is not None:
                if f.hook != 'stop':
                    raise Unsupported('exception through a verifier callback')
                if s.on_throw is not None:  # the contract states when this is allowed and what holds then
                    s2 = s.copy()
                    s2.pending = None
                    self.run_function(s2, s.on_throw[0], [s.on_throw[1]])
                    raise PathEnd()
                self.oblige(s, 0, 'exception-thrown', 'exception', at=s.exc[3])
                raise PathEnd()
            for rid in f.allocas:
                s.regs.pop(rid, None)
            s.frames.pop()

    def run(self, s, base, loop, work, outs):
        steps = 0
        if loop is not None and len(s.frames) < loop[0]:
            outs.append((s, 'exit'))
            return
        while True:
            steps += 1
            if (steps & 1023) == 0 and time.time() > self.deadline:
                raise Budget()
            f = s.frames[-1]
            if s.pending is not None:
                to = s.pending
                depth = len(s.frames)
                if loop is not None and depth == loop[0]:
                    if to not in loop[2]:
                        outs.append((s, 'exit'))
                        return
                    if to == loop[1]:
                        if loop[3] == 'cut':
                            outs.append((s, 'back'))
                            return
                        s.uc[loop[:2]] = s.uc.get(loop[:2], 0) + 1
                        if s.uc[loop[:2]] > loop[4]['max']:
                            raise UnrollFail()
                        loop[4]['n'] += 1
                        if loop[4]['n'] > loop[4]['maxn']:
                            raise UnrollFail()
                        s.pending = None
                        self.edge(s, f, to)
                        continue
                if to in f.fn.loops and (f.blk, to) not in f.fn.backedge:
                    work.extend(self.handle_loop(s, to))
                    return
                s.pending = None
                self.edge(s, f, to)
                continue
            ins = f.fn.blocks[f.blk][f.i]
            op = ins.op
            try:
                if op == 'call' or op == 'invoke':
                    r = self.do_call(s, f, ins, work)
                    if r == 'fork':
                        return
                    continue
                if op == 'ret':
                    v = None
                    if ins.a[0] is not None:
                        v = self.val(s, f, ins.t, ins.a[0])
                    if self.do_ret(s, v):
                        outs.append((s, 'ret'))
                        return
                    continue
                if op == 'br':
                    s.pending = ins.a[0]
                    continue
                if op == 'cbr':
                    c = self.val(s, f, ('i', 1), ins.a[0])
                    if isint(c):
                        s.pending = ins.a[1] if c else ins.a[2]
                        continue
                    self.fork(s, f, [(c, ins.a[1]), (lnot(c), ins.a[2])], work, loop)
                    return
                if op == 'switch':
                    v = self.val(s, f, ins.t, ins.a[0])
                    if isint(v):
                        to = ins.a[1]
                        for cv, b in ins.a[2]:
                            if cv == v:
                                to = b
                        s.pending = to
                        continue
                    w = self.mod.types.resolve(ins.t)[1]
                    alts = []
                    rest = []
                    byt = {}
                    for cv, b in ins.a[2]:
                        c = eq(v, cv, w)
                        byt.setdefault(b, []).append(c)
                        rest.append(lnot(c))
                    for b, cs in byt.items():
                        alts.append((cs[0] if len(cs) == 1 else z3.Or(*[tobool(c) for c in cs]), b))
                    alts.append((land(*rest), ins.a[1]))
                    self.fork(s, f, alts, work, loop)
                    return
                if op == 'unreachable':
                    self.oblige(s, 0, 'unreachable-reached', 'ub')
                    raise PathEnd()
                self.step(s, f, ins)
                f.i += 1
            except Unwind:
                self.unwind(s)
                if loop is not None and len(s.frames) < loop[0]:
                    outs.append((s, 'exit'))
                    return
            except LazyLoad as e:
                # call the registered hook; it returns the value to load
                r, p, t = e.args
                f.i += 1
                self.push(s, r.lazy[0], [r.lazy[1], p.o], res=ins.res)
            except NeedFork as e:
                alts = e.alts
                first = True
                for c, fn in alts:
                    if not self.feasible(s, c):
                        continue
                    s2 = s.copy()
                    if not self.assume(s2, c):
                        continue
                    fn(s2)
                    work.append(s2)
                return

    def fork(self, s, f, alts, work, loop):
        live = []
        for c, b in alts:
            if self.feasible(s, c):
                live.append((c, b))
        if loop is not None and loop[3] == 'unroll' and len(live) > 1 and len(s.frames) == loop[0]:
            ex = [b for c, b in live if b not in loop[2]]
            if ex and len(ex) < len(live):
                loop[4]['sym'] += 1
                if loop[4]['sym'] > loop[4]['maxsym']:
                    raise UnrollFail()
        for k, (c, b) in enumerate(live):
            s2 = s.copy() if k < len(live) - 1 else s
            if len(live) > 1 or not isint(c):
                if not self.assume(s2, c):
                    continue
            s2.pending = b
            work.append(s2)

    def edge(self, s, f, to):
        frm = f.blk
        ins = f.fn.blocks[to]
        vals = []
        k = 0
        for i in ins:
            if i.op != 'phi':
                break
            vals.append((i.res, self.val(s, f, i.t, i.a[0][frm])))
            k += 1
        for r, v in vals:
            f.loc[r] = v
        f.prev = frm
        f.blk = to
        f.i = k

    def do_ret(self, s, v):
        f = s.frames.pop()
        for rid in f.allocas:
            r = s.regs.get(rid)
            if r is not None:
                del s.regs[rid]
        if f.hook == 'stop':
            s.ret = v
            return True
        if callable(f.hook):
            f.hook(s, v)
            return False
        g = s.frames[-1]
        if f.res is not None:
            g.loc[f.res] = v
        if f.next is not None:
            s.pending = f.next
        return False

    def do_call(self, s, f, ins, work):
        callee = ins.a[0]
        nxt = ins.a[2] if ins.op == 'invoke' else None
        if callee[0] == 'asm':
            if ins.t[0] != 'void':
                raise Unsupported('inline asm with result')
            f.i += 1
            return None
        if callee[0] == 'g':
            nm = callee[1]
        else:
            p = self.val(s, f, ('ptr',), callee)
            if not isinstance(p, Ptr):
                raise Unsupported('indirect call through %r' % (p,))
            if p.r == 0:
                self.oblige(s, 0, 'null-call', 'memory')
                raise PathEnd()
            r = self.region(s, p.r)
            if r.kind != 'func':
                raise Unsupported('indirect call to data')
            nm = r.fn
        nm = self.mod.aliases.get(nm, nm)
        nm = self.replace.get(nm, nm)
        args = [self.val(s, f, t, v) if v is not None else None for t, v, at in ins.a[1]]
        for k, (t, v, at) in enumerate(ins.a[1]):
            if 'byval' in at and nm not in self.builtins:
                pass
        b = self.builtins.get(nm)
        if b is None and '11unified_out' in nm:
            b = self.builtins['@vc_log']
        if b is None and nm not in self.mod.fraw and STREAM.match(nm):
            b = lambda s, f, ins, a: a[0] if a and ins.t[0] == 'ptr' else None   # formatted output: no effect on the library
        if b is None and nm.startswith('@llvm.'):
            b = self.builtins.get('.'.join(nm.split('.')[:2]))
            if b is None:
                b = self.builtins.get('.'.join(nm.split('.')[:3]))
        if b is not None:
            self.ext_seen.add(nm)
            r = b(s, f, ins, args)
            if r is not None and isinstance(r, tuple) and r and r[0] == 'tail':
                # continue in another function
                f.i += 1
                self.push(s, r[1], r[2], res=ins.res, nxt=nxt)
                return None
            if ins.res is not None:
                if r is None:
                    r = self.undef(ins.t) if ins.t[0] != 'void' else None
                f.loc[ins.res] = r
            f.i += 1
            if nxt is not None:
                s.pending = nxt
            return None
        if self.mod.aliases.get(nm, nm) in self.mod.fraw:
            f.i += 1
            self.push(s, nm, args, res=ins.res, nxt=nxt)
            return None
        raise Unsupported('external function %s called at %s' % (nm, self.where(s)))

    def step(self, s, f, ins):
        op = ins.op
        if op == 'load':
            f.loc[ins.res] = self.load(s, self.val(s, f, ('ptr',), ins.a[0]), ins.t)
        elif op == 'store':
            v = ins.a[0]
            x = UNDEF if v[0] == 'undef' else self.val(s, f, ins.t, v)
            self.store(s, self.val(s, f, ('ptr',), ins.a[1]), ins.t, x)
        elif op == 'getelementptr':
            ops = ins.a[0]
            base = self.val(s, f, ('ptr',), ops[0][1])
            f.loc[ins.res] = self.gep(s, ins.t, base, [(t, self.val(s, f, t, v)) for t, v in ops[1:]])
        elif op in BIN:
            f.loc[ins.res] = self.binop(s, op, ins.t, self.val(s, f, ins.t, ins.a[0]), self.val(s, f, ins.t, ins.a[1]))
        elif op == 'icmp':
            f.loc[ins.res] = self.icmp(s, ins.a[0], ins.t, self.val(s, f, ins.t, ins.a[1]), self.val(s, f, ins.t, ins.a[2]))
        elif op == 'fcmp':
            f.loc[ins.res] = self.fresh('fcmp', 1)
        elif op == 'fneg':
            f.loc[ins.res] = Opq()
        elif op in ('trunc', 'zext', 'sext', 'bitcast', 'inttoptr', 'ptrtoint', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'):
            f.loc[ins.res] = self.cast(s, op, ins.a[0], ins.t, self.val(s, f, ins.a[0], ins.a[1]))
        elif op == 'alloca':
            n = self.val(s, f, ('i', 64), ins.a[0])
            sz = self.mod.types.sa(ins.t)[0]
            if not isint(n):
                raise Unsupported('variable alloca')
            p = self.alloc(s, (ins.res or 'alloca') + '@' + f.fn.name, sz * n, 'stack', ins.t if n == 1 else ('arr', n, ins.t))
            f.allocas.append(p.r)
            f.loc[ins.res] = p
        elif op == 'select':
            c = self.val(s, f, ('i', 1), ins.a[0])
            if isint(c):
                f.loc[ins.res] = self.val(s, f, ins.t, ins.a[1] if c else ins.a[2])
                return
            a = self.val(s, f, ins.t, ins.a[1])
            b = self.val(s, f, ins.t, ins.a[2])
            t = self.mod.types.resolve(ins.t)
            if t[0] == 'i' and not isinstance(a, Ptr) and not isinstance(b, Ptr):
                f.loc[ins.res] = norm(ite(c, a, b, t[1]))
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                f.loc[ins.res] = Ptr(a.r, norm(ite(c, a.o, b.o, 64)))
            else:
                res = ins.res

                def setter(v):
                    def g(s2):
                        g2 = s2.frames[-1]
                        g2.loc[res] = v
                        g2.i += 1
                    return g
                raise NeedFork([(c, setter(a)), (lnot(c), setter(b))])
        elif op == 'extractvalue':
            v = self.val(s, f, ins.t, ins.a[0])
            t = ins.t
            for i in ins.a[1]:
                v = v[i]
                t = self.mod.types.resolve(t)
                t = t[1][i] if t[0] == 'st' else t[2]
            if v is UNDEF:
                v = self.undef(t)
            f.loc[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(s, f, ins.t, ins.a[0])
            e = self.val(s, f, ins.a[1], ins.a[2])
            f.loc[ins.res] = self.insert(v, e, ins.a[3])
        elif op == 'atomicrmw':
            o, p, v = ins.a
            p = self.val(s, f, ('ptr',), p)
            v = self.val(s, f, ins.t, v)
            old = self.load(s, p, ins.t)
            w = self.mod.types.resolve(ins.t)
            if o == 'xchg':
                nv = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'):
                nv = self.binop(s, o, ins.t, old, v)
            elif o in ('umax', 'umin', 'max', 'min'):
                c = self.icmp(s, {'umax': 'ugt', 'umin': 'ult', 'max': 'sgt', 'min': 'slt'}[o], ins.t, old, v)
                nv = ite(c, old, v, w[1])
            else:
                raise Unsupported('atomicrmw ' + o)
            self.store(s, p, ins.t, nv)
            f.loc[ins.res] = old
        elif op == 'cmpxchg':
            p, c, n = ins.a
            p = self.val(s, f, ('ptr',), p)
            c = self.val(s, f, ins.t, c)
            n = self.val(s, f, ins.t, n)
            old = self.load(s, p, ins.t)
            e = self.icmp(s, 'eq', ins.t, old, c)
            if isint(e):
                if e:
                    self.store(s, p, ins.t, n)
            else:
                w = self.mod.types.resolve(ins.t)[1]
                self.store(s, p, ins.t, ite(e, n, old, w))
            f.loc[ins.res] = [old, e]
        elif op == 'freeze':
            f.loc[ins.res] = self.val(s, f, ins.t, ins.a[0])
        elif op == 'phi':
            raise Unsupported('phi in the middle')
        elif op == 'landingpad':
            f.loc[ins.res] = [s.exc[0], s.exc[2]]
        elif op == 'resume':
            raise Unwind()
        else:
            raise Unsupported('instruction %s %r' % (op, ins.a))

    def insert(self, v, e, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insert(v[idx[0]], e, idx[1:])
        return v

    def cast(self, s, op, ft, tt, v):
        ft = self.mod.types.resolve(ft)
        tt = self.mod.types.resolve(tt)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            if isinstance(v, Ptr):
                if tt[0] == 'i' and tt[1] < 64:
                    if v.r == 0:
                        return self.trunc_to(v.o, 64, tt)
                    return self.fresh('ptrbits', tt[1])
                if tt[0] == 'i' and v.r == 0:
                    return v.o
                return v
            if tt[0] == 'ptr':
                return Ptr(0, v)
            if isinstance(v, Opq) and tt[0] == 'i':
                return self.fresh('fpbits', tt[1])
            return v
        if op in ('fptrunc', 'fpext', 'uitofp', 'sitofp'):
            return Opq()
        if op in ('fptoui', 'fptosi'):
            return self.fresh('fp', tt[1])
        if isinstance(v, Ptr):
            if op == 'trunc':
                return self.fresh('ptrbits', tt[1])
            raise Unsupported('cast of pointer')
        a, b = ft[1], tt[1]
        if isint(v):
            if op == 'sext' and v >> (a - 1):
                return (v - (1 << a)) & ((1 << b) - 1)
            return v & ((1 << b) - 1)
        if op == 'trunc':
            if b == 1:
                return norm(z3.Extract(0, 0, v) == 1)
            return norm(z3.Extract(b - 1, 0, v))
        if z3.is_bool(v):
            if op == 'zext':
                return norm(z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b)))
            return norm(z3.If(v, z3.BitVecVal((1 << b) - 1, b), z3.BitVecVal(0, b)))
        if op == 'zext':
            return norm(z3.ZeroExt(b - a, v))
        return norm(z3.SignExt(b - a, v))

    # ---- sub-execution of pure contract functions
    def eval_pure(self, s, fname, args):
        """value (i1 term) of a side-effect free function in state s"""
        s2 = s.copy()
        s2.pending = None
        s2.probes = None
        n0 = len(s2.pc)
        self.nocheck += 1
        pr = self.probe
        try:
            outs = self.run_function(s2, fname, args)
        finally:
            self.nocheck -= 1
            self.probe = pr
        if not outs:
            return 0
        r = None
        for o in outs:
            c = land(*o.pc[n0:])
            v = o.ret
            if isint(c) and c:
                return v if isint(v) else norm(tobool(v))
            t = z3.And(tobool(c), tobool(v))
            r = t if r is None else z3.Or(r, t)
        return norm(r)

    from loops import handle_loop, cut_loop, _diff, _havoc, _items, _cands, run_hooks


class LazyLoad(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, alts):
        self.alts = alts


class _PtrB:
    pass


PTRB = _PtrB()
STREAM = __import__('re').compile(r'@_ZN?K?S?t?(St7__cxx11(18|19)basic_[io]?stringstream|7__cxx1118basic_stringstream|St8ios_base|So|lsI|St4endl|St9basic_ios|4endl)|@_ZNSolsE|@_ZStlsI|@_ZNSt7__cxx1118basic_stringstream')
BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())


def clean(n):
    return ''.join(c if c.isalnum() else '_' for c in str(n))[-40:]


class Cvc5:
    """second back end, run next to z3 on queries the incremental solver does not answer at once"""

    def __init__(self, solver, timeout):
        import subprocess
        import tempfile
        txt = '(set-logic ALL)\n' + solver.sexpr() + '\n(check-sat)\n'
        self.f = tempfile.TemporaryFile('w+')
        self.f.write(txt)
        self.f.flush()
        self.f.seek(0)
        self.p = subprocess.Popen(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], stdin=self.f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def poll(self):
        if self.p.poll() is None:
            return None
        o = self.p.stdout.read().strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'

    def wait(self, t):
        try:
            self.p.wait(t)
        except Exception:
            return None
        return self.poll()

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.f.close()

