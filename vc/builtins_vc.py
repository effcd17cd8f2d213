"""Intrinsics of the contract language (vc_*), compiler intrinsics and the C library functions with a built-in contract."""
import z3


def table(E):
    from engine import (Ptr, NULL, Mem, Opq, Unsupported, PathEnd, NeedFork, isint, bv, norm, tobool, add, sub, eq, ult,
                        ule, ite, land, lnot, mem_read, UNDEF, Region, Unwind)
    T = {}

    def cstring(s, p):
        out = b''
        try:
            for i in range(400):
                c = E.load(s, Ptr(p.r, add(p.o, i)), ('i', 8))
                if not isint(c) or c == 0:
                    break
                out += bytes([c])
        except Exception:
            pass
        return out.decode('latin1')

    def nondet(w):
        def fn(s, f, ins, a):
            nm = cstring(s, a[0]) if a and isinstance(a[0], Ptr) and a[0].r else 'nondet'
            v = E.fresh(nm, w)
            s.inputs.append((nm, v))
            return v
        return fn
    for n, w in (('u64', 64), ('u32', 32), ('u16', 16), ('u8', 8)):
        T['@vc_' + n] = nondet(w)

    def vc_bool(s, f, ins, a):
        nm = cstring(s, a[0]) if a and a[0].r else 'nondet'
        v = E.fresh(nm, 1)
        s.inputs.append((nm, v))
        return v
    T['@vc_bool'] = vc_bool

    def vc_assume(s, f, ins, a):
        c = a[0]
        if not isint(c) and not z3.is_bool(c):
            c = norm(c != 0)
        if not E.assume(s, c) or not E.feasible(s, 1):
            raise PathEnd()
        if not isint(c) and not E.nocheck:
            if s.model is None:
                r, m = E.check(s, [], 10000)
                if r == 'unsat':
                    raise PathEnd()
                s.model = m
    T['@vc_assume'] = vc_assume

    def vc_assert(s, f, ins, a):
        c = a[0]
        if not isint(c) and not z3.is_bool(c):
            c = norm(c != 0)
        E.oblige(s, c, cstring(s, a[1]), 'contract')
    T['@vc_assert'] = vc_assert

    def vc_cover(s, f, ins, a):
        nm = cstring(s, a[0])
        if not E.probe and not E.nocheck:
            if not E.covers.get(nm):
                r, m = E.check(s, [], 10000)
                E.covers[nm] = (r == 'sat')
    T['@vc_cover'] = vc_cover

    def vc_stop(s, f, ins, a):
        raise PathEnd()
    T['@vc_stop'] = vc_stop

    def vc_alloc(s, f, ins, a):
        nm = cstring(s, a[1]) if len(a) > 1 and a[1].r else 'buf'
        p = E.alloc(s, nm, a[0], 'heap')
        r = s.regs[p.r]
        r.br = ((0, a[0], E.fresh_arr(nm)),)
        return p
    T['@vc_alloc'] = vc_alloc

    def vc_unbounded(s, f, ins, a):
        """a byte region with no size limit (ghost memory)"""
        p = E.alloc(s, 'ghostmem', None, 'ghost')
        s.regs[p.r].br = ((0, None, E.fresh_arr('ghostmem')),)
        return p
    T['@vc_unbounded'] = vc_unbounded

    def vc_obj(s, f, ins, a):
        return E.alloc(s, cstring(s, a[1]) if len(a) > 1 else 'obj', a[0], 'heap')
    T['@vc_obj'] = vc_obj

    def vc_bytes(s, f, ins, a):
        E.declare_bytes(s, a[0].r, a[0].o, a[0].o + a[1])
    T['@vc_bytes'] = vc_bytes

    def vc_resize(s, f, ins, a):
        r = E.wregion(s, a[0].r)
        r.size = a[1]
        r.br = tuple((lo, a[1] if i == 0 else hi, m) for i, (lo, hi, m) in enumerate(r.br))
    T['@vc_resize'] = vc_resize

    def vc_region_size(s, f, ins, a):
        return E.region(s, a[0].r).size
    T['@vc_region_size'] = vc_region_size

    def vc_readonly(s, f, ins, a):
        r = E.wregion(s, a[0].r)
        r.ro = bool(a[1]) if isint(a[1]) else True
    T['@vc_readonly'] = vc_readonly

    def vc_byte(s, f, ins, a):
        """ghost read of a byte; no bounds obligation"""
        p = a[0]
        o = add(p.o, a[1])
        r = E.region(s, p.r)
        if not r.br:
            if isint(o):
                b = E.cell_byte(r, o)
                if b is not None:
                    return b
                return 0 if r.zero else E.fresh('gb', 8)
            E.promote(s, r)
            r = E.region(s, p.r)
        for lo, hi, m in r.br:
            if isint(lo) and isint(p.o) and lo <= p.o and (not isint(hi) or p.o < hi or (p.o == hi)):
                return mem_read(m, o)
        if len(r.br) == 1:
            return mem_read(r.br[0][2], o)
        for lo, hi, m in r.br:
            c = E.must(s, land(ule(lo, o), ult(o, hi)) if hi is not None else ule(lo, o))
            if c:
                return mem_read(m, o)
        raise Unsupported('vc_byte')
    T['@vc_byte'] = vc_byte

    def vc_setbyte(s, f, ins, a):
        p = a[0]
        r = E.wregion(s, p.r)
        lo, hi, m = r.br[0]
        m = Mem('store', 8, p=m, a=add(p.o, a[1]), b=a[2])
        r.br = ((lo, hi, m),) + r.br[1:]
    T['@vc_setbyte'] = vc_setbyte

    def vc_memcpy_ghost(s, f, ins, a):
        """ghost copy (no obligations): dst,src,n"""
        d, sp, n = a
        rs = E.region(s, sp.r)
        sm = None
        for lo, hi, m in rs.br:
            if len(rs.br) == 1 or (isint(lo) and isint(sp.o) and lo <= sp.o and (not isint(hi) or sp.o <= hi)):
                sm = m
                if not isint(hi) or not isint(sp.o) or sp.o < hi:
                    break
        if sm is None:
            raise Unsupported('ghost copy source')
        r = E.wregion(s, d.r)
        lo, hi, m = r.br[0]
        m = Mem('copy', 8, p=m, a=d.o, b=n, c=sm, d=sp.o)
        r.br = ((lo, hi, m),) + r.br[1:]
    T['@vc_memcpy_ghost'] = vc_memcpy_ghost

    def vc_check_range(s, f, ins, a):
        """contract precondition of a dependency: [p, p+n) is accessible"""
        p, n = a[0], a[1]
        if isint(n) and n == 0:
            return
        if isint(n) and isint(p.o) and p.r and E._spans(s, p, n):
            return
        E.locate_n(s, p, n, cstring(s, a[2]) if len(a) > 2 else 'range')
    T['@vc_check_range'] = vc_check_range

    # ghost arrays of 64-bit values
    def vc_arr(s, f, ins, a):
        p = E.alloc(s, 'arr', None, 'arr')
        s.regs[p.r].br = ((0, None, E.fresh_arr('arr', 64)),)
        return p
    T['@vc_arr'] = vc_arr

    def vc_aget(s, f, ins, a):
        return mem_read(E.region(s, a[0].r).br[0][2], add(a[0].o, a[1]))
    T['@vc_aget'] = vc_aget

    def vc_aset(s, f, ins, a):
        r = E.wregion(s, a[0].r)
        lo, hi, m = r.br[0]
        r.br = ((lo, hi, Mem('store', 64, p=m, a=add(a[0].o, a[1]), b=a[2])),)
    T['@vc_aset'] = vc_aset

    def vc_acopy(s, f, ins, a):
        """dst, di, src, si, n"""
        sm = E.region(s, a[2].r).br[0][2]
        r = E.wregion(s, a[0].r)
        lo, hi, m = r.br[0]
        r.br = ((lo, hi, Mem('copy', 64, p=m, a=add(a[0].o, a[1]), b=a[4], c=sm, d=add(a[2].o, a[3]))),)
    T['@vc_acopy'] = vc_acopy

    def vc_ahavoc(s, f, ins, a):
        r = E.wregion(s, a[0].r)
        r.br = ((0, None, E.fresh_arr('arr', 64)),)
    T['@vc_ahavoc'] = vc_ahavoc

    def vc_afill(s, f, ins, a):
        """dst, i, n, value"""
        r = E.wregion(s, a[0].r)
        lo, hi, m = r.br[0]
        r.br = ((lo, hi, Mem('fill', 64, p=m, a=add(a[0].o, a[1]), b=a[2], c=a[3])),)
    T['@vc_afill'] = vc_afill

    def vc_havoc_bytes(s, f, ins, a):
        r = E.wregion(s, a[0].r)
        if len(r.br) == 1 and isint(a[0].o) and a[0].o == r.br[0][0]:
            r.br = ((r.br[0][0], r.br[0][1], E.fresh_arr('hav')),)
            return
        n = a[1]
        nm = E.fresh_arr('hav')
        for i, (lo, hi, m) in enumerate(r.br):
            if len(r.br) == 1 or (isint(lo) and isint(a[0].o) and lo <= a[0].o and (not isint(hi) or a[0].o < hi)):
                m2 = Mem('copy', 8, p=m, a=a[0].o, b=n, c=nm, d=0)
                r.br = r.br[:i] + ((lo, hi, m2),) + r.br[i + 1:]
                return
        raise Unsupported('vc_havoc_bytes')
    T['@vc_havoc_bytes'] = vc_havoc_bytes

    def uf(n):
        def fn(s, f, ins, a):
            nm = cstring(s, a[0])
            k = (nm, n)
            if k not in E.ufs:
                B = z3.BitVecSort(64)
                E.ufs[k] = z3.Function('uf_' + nm, *([B] * (n + 1)))
            return norm(E.ufs[k](*[bv(x, 64) for x in a[1:]]))
        return fn
    T['@vc_uf1'] = uf(1)
    T['@vc_uf2'] = uf(2)

    def vc_fork(s, f, ins, a):
        """nondeterministic choice 0..n-1, one path each"""
        n = a[0]
        res = ins.res

        def setter(v):
            def g(s2):
                g2 = s2.frames[-1]
                g2.loc[res] = v
                g2.i += 1
                s2.inputs.append(('choice', v))
                if ins.op == 'invoke':
                    s2.pending = ins.a[2]
            return g
        raise NeedFork([(1, setter(v)) for v in range(n)])
    T['@vc_fork'] = vc_fork

    def vc_split(s, f, ins, a):
        """case split on a boolean: both values become concrete"""
        c = a[0]
        if isint(c):
            return c
        res = ins.res

        def setter(v):
            def g(s2):
                g2 = s2.frames[-1]
                g2.loc[res] = v
                g2.i += 1
                if ins.op == 'invoke':
                    s2.pending = ins.a[2]
            return g
        raise NeedFork([(tobool(c), setter(1)), (lnot(c), setter(0))])
    T['@vc_split'] = vc_split

    def vc_invariant(s, f, ins, a):
        fn = E.region(s, a[0].r).fn
        s.invs = s.invs + ((fn, [a[1]]),)
    T['@vc_invariant'] = vc_invariant

    def vc_invariants_clear(s, f, ins, a):
        s.invs = ()
    T['@vc_invariants_clear'] = vc_invariants_clear

    def vc_on_loop(s, f, ins, a):
        fn = E.region(s, a[0].r).fn
        s.hooks = s.hooks + ((fn, a[1]),)
    T['@vc_on_loop'] = vc_on_loop

    def vc_off_loop(s, f, ins, a):
        p = a[0]
        s.hooks = tuple(h for h in s.hooks if not (isinstance(h[1], Ptr) and h[1].r == p.r and h[1].o == p.o))
    T['@vc_off_loop'] = vc_off_loop

    def vc_lazy(s, f, ins, a):
        r = E.wregion(s, a[0].r)
        r.lazy = (E.region(s, a[1].r).fn, a[2])
    T['@vc_lazy'] = vc_lazy

    def vc_ptr_off(s, f, ins, a):
        return a[0].o
    T['@vc_ptr_off'] = vc_ptr_off

    def vc_same_object(s, f, ins, a):
        return int(a[0].r == a[1].r)
    T['@vc_same_object'] = vc_same_object

    def vc_is_live(s, f, ins, a):
        if a[0].r == 0:
            return 0
        r = s.regs.get(a[0].r)
        return int(r is not None and r.alive)
    T['@vc_is_live'] = vc_is_live

    def vc_free(s, f, ins, a):
        if a[0].r and E.region(s, a[0].r).kind == 'arr':
            E.wregion(s, a[0].r).alive = False
            return
        free(s, f, ins, a)
    T['@vc_free'] = vc_free

    def vc_set_maxsym(s, f, ins, a):
        E.maxsym_v = a[0]
    T['@vc_unroll_hint'] = vc_set_maxsym
    E.maxsym_v = 2
    E.maxsym = lambda s: E.maxsym_v

    def vc_replace(s, f, ins, a):
        E.replace[E.region(s, a[0].r).fn] = E.region(s, a[1].r).fn
    T['@vc_replace'] = vc_replace

    def vc_replace_name(s, f, ins, a):
        """modular call: a function named by its (mangled) name is represented by its contract"""
        import re
        pat = re.compile(cstring(s, a[0]))
        ms = [n for n in E.mod.fraw if pat.search(n) and not n.startswith('@vc_')]
        for n in ms:
            E.replace[n] = E.region(s, a[1].r).fn
        return int(bool(ms))   # none: the function is not there (any more); its body is verified where it is used
    T['@vc_replace_name'] = vc_replace_name

    def vc_log(s, f, ins, a):
        if E.trace:
            print('LOG', cstring(s, a[0]), a[1:])
    T['@vc_log'] = vc_log

    def vc_is_concrete(s, f, ins, a):
        return int(isint(a[0]))
    T['@vc_is_concrete'] = vc_is_concrete

    def vc_must(s, f, ins, a):
        """1 when the path condition implies the argument (used only to guide ghost bookkeeping)"""
        c = a[0]
        if isint(c):
            return int(bool(c))
        return int(E.must(s, tobool(c)))
    T['@vc_must'] = vc_must

    def vc_aswap(s, f, ins, a):
        r1, r2 = E.wregion(s, a[0].r), E.wregion(s, a[1].r)
        r1.br, r2.br = r2.br, r1.br
    T['@vc_aswap'] = vc_aswap

    def vc_invariant1(s, f, ins, a):
        fn = E.region(s, a[0].r).fn
        s.invs = s.invs + ((fn, [a[1]], 1),)
    T['@vc_invariant1'] = vc_invariant1

    def vc_invariant2(s, f, ins, a):
        fn = E.region(s, a[0].r).fn
        s.invs = s.invs + ((fn, [a[1]], 2),)
    T['@vc_invariant2'] = vc_invariant2

    def vc_invariant_b(s, f, ins, a):
        """candidate with a flag the loop changes and one of its values"""
        fn = E.region(s, a[0].r).fn
        s.invs = s.invs + ((fn, [a[1]], 'b'),)
    T['@vc_invariant_b'] = vc_invariant_b

    def vbool(x):
        if isint(x) or z3.is_bool(x):
            return x
        return norm(x != 0)

    T['@vc_and'] = lambda s, f, ins, a: norm(land(vbool(a[0]), vbool(a[1])))
    T['@vc_or'] = lambda s, f, ins, a: norm(z3.Or(tobool(vbool(a[0])), tobool(vbool(a[1]))))
    T['@vc_not'] = lambda s, f, ins, a: norm(lnot(vbool(a[0])))
    T['@vc_imp'] = lambda s, f, ins, a: norm(z3.Or(z3.Not(tobool(vbool(a[0]))), tobool(vbool(a[1]))))
    T['@vc_ite'] = lambda s, f, ins, a: norm(ite(vbool(a[0]), a[1], a[2], 64))

    def vc_div(s, f, ins, a):
        x, c = a
        if isint(x):
            return x // c
        k = c.bit_length() - 1
        if z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.num_args() == 2 and x.arg(1).size() == k:
            e = x.arg(0)
            if z3.is_app_of(e, z3.Z3_OP_EXTRACT) and e.params() == [63 - k, 0]:
                i = e.arg(0)
                if E.must(s, norm(z3.ULT(i, 1 << (64 - k)))):
                    return i
        if z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == c:
            i = x.arg(1)
            if E.must(s, norm(z3.ULT(i, 1 << (64 - k)))):
                return i
        return E.binop(s, 'udiv', ('i', 64), x, c)
    T['@vc_div'] = vc_div

    def vc_cut(s, f, ins, a):
        s.pathlog = bool(a[0])
    T['@vc_cut'] = vc_cut

    # content tokens: equal tokens mean equal content
    E.snaps = {}      # token -> (mem, off)
    E.snapkey = {}    # (id(mem), off) -> token
    E.keep = []

    def same(a, b):
        if isint(a) and isint(b):
            return a == b
        if isint(a) or isint(b):
            return False
        return a.eq(b)

    def vc_snap(s, f, ins, a):
        p, n = a
        r = E.region(s, p.r)
        if not r.br:
            E.promote(s, r)
            r = E.region(s, p.r)
        m = None
        for lo, hi, mm in r.br:
            if len(r.br) == 1 or (isint(lo) and isint(p.o) and lo <= p.o and (not isint(hi) or p.o < hi)):
                m = mm
                break
        off = p.o
        if m is None:  # not (wholly) bytes: unknown content, different from any other
            t = (1 << 62) + len(E.snapkey)
            E.snapkey[('?', t)] = t
            return t
        while True:
            if m.k == 'store' and same(norm(bv(sub(m.a, off), 64)), n):
                m = m.p
            elif m.k == 'copy' and same(m.a, off) and same(m.b, n):
                off = m.d
                m = m.c
            else:
                break
        key = (id(m), str(off))
        t = E.snapkey.get(key)
        if t is None:
            t = (1 << 63) + len(E.snapkey)
            E.snapkey[key] = t
            E.snaps[t] = (m, off)
            E.keep.append(m)
        return t
    T['@vc_snap'] = vc_snap

    def vc_unsnap(s, f, ins, a):
        p, n, t = a
        if not isint(t):
            k = t.sexpr()
        else:
            k = t
        c = E.snaps.get(k)
        if c is None:
            m = E.fresh_arr('content')
            c = E.snaps[k] = (m, 0)
            E.snapkey[(id(m), '0')] = t
            E.keep.append(m)
        r = E.wregion(s, p.r)
        lo, hi, m = r.br[0]
        r.br = ((lo, hi, Mem('copy', 8, p=m, a=p.o, b=n, c=c[0], d=c[1])),) + r.br[1:]
    T['@vc_unsnap'] = vc_unsnap

    def realloc(s, f, ins, a):
        p, n = a
        q = malloc(s, f, ins, [n])
        if p.r:
            old = E.region(s, p.r)
            if not old.alive:
                E.oblige(s, 0, 'use-after-free:realloc', 'memory')
                raise PathEnd()
            if old.br or not isint(old.size):
                r = E.wregion(s, q.r)
                if not r.br:
                    r.br = ((0, n, E.fresh_arr('new')),)
                sz = old.size
                m = old.br[0][2] if old.br else E.fresh_arr('uninit')
                k = ite(ult(n, sz), n, sz, 64)
                k = k if isint(k) else norm(k)
                r.br = ((0, n, Mem('copy', 8, p=r.br[0][2], a=0, b=k, c=m, d=0)),)
            else:
                E.copy_cells(s, q, Ptr(p.r, 0), min(n, old.size)) if isint(n) else None
            free(s, f, ins, [Ptr(p.r, p.o)])
        return q
    T['@realloc'] = realloc

    # ---- allocation
    def malloc(s, f, ins, a):
        n = a[0]
        if not isint(n):
            p = E.alloc(s, 'new', n, 'heap')
            s.regs[p.r].br = ((0, n, E.fresh_arr('new')),)
            return p
        return E.alloc(s, 'new%d' % n, n, 'heap')
    for n in ('@_Znwm', '@_Znam', '@malloc', '@_ZnwmRKSt9nothrow_t', '@_ZnamRKSt9nothrow_t'):
        T[n] = malloc

    def free(s, f, ins, a):
        p = a[0]
        if p.r == 0:
            return
        r = E.region(s, p.r)
        if not r.alive:
            E.oblige(s, 0, 'double-free', 'memory')
            raise PathEnd()
        if r.kind not in ('heap',):
            E.oblige(s, 0, 'free-of-non-heap', 'memory')
            raise PathEnd()
        E.oblige(s, eq(p.o, 0), 'free-of-interior-pointer', 'memory')
        r = E.wregion(s, p.r)
        r.alive = False
    for n in ('@_ZdlPv', '@_ZdlPvm', '@_ZdaPv', '@_ZdaPvm', '@free', '@_ZdlPvRKSt9nothrow_t'):
        T[n] = free

    # ---- memory intrinsics
    def memcpy(s, f, ins, a):
        E.memcpy(s, a[0], a[1], a[2])
        return a[0]

    def memcpy_noalias(s, f, ins, a):
        d, sp, n = a[0], a[1], a[2]
        if not isint(n) or n > 0:
            if d.r == sp.r and d.r != 0:
                same = eq(d.o, sp.o)
                dis = land(1, lnot(land(ult(d.o, add(sp.o, n)), ult(sp.o, add(d.o, n)))))
                if not (isint(same) and same):
                    E.oblige(s, norm(z3.Or(tobool(same), tobool(dis), tobool(eq(n, 0)))), 'memcpy-overlap', 'memory')
        return memcpy(s, f, ins, a)
    T['@memcpy'] = memcpy_noalias
    T['@llvm.memcpy'] = memcpy_noalias
    T['@memmove'] = memcpy
    T['@llvm.memmove'] = memcpy

    def memset(s, f, ins, a):
        v = a[1]
        if not isint(v) and v.size() > 8:
            v = norm(z3.Extract(7, 0, v))
        elif isint(v):
            v &= 255
        E.memset(s, a[0], v, a[2])
        return a[0]
    T['@memset'] = memset
    T['@llvm.memset'] = memset

    def bulk_eq(s, p, q, n):
        """term: the n bytes at p and q are equal"""
        if isint(n) and n <= 64:
            return land(*[eq(E.load(s, Ptr(p.r, add(p.o, i)), ('i', 8)), E.load(s, Ptr(q.r, add(q.o, i)), ('i', 8)), 8) for i in range(n)])
        rp, bp = E.locate_n(s, p, n, 'compare')
        rq, bq = E.locate_n(s, q, n, 'compare')
        i = z3.BitVec('cmpi!%d' % E.fresh_n, 64)
        E.fresh_n += 1
        b = z3.ForAll([i], z3.Implies(z3.ULT(i, bv(n, 64)), bv(mem_read(rp.br[bp][2], add(p.o, i)), 8) == bv(mem_read(rq.br[bq][2], add(q.o, i)), 8)))
        return b

    def memcmp(s, f, ins, a):
        n = a[2]
        if isint(n) and n == 0:
            return 0
        r = E.fresh('memcmp', 32)
        c = bulk_eq(s, a[0], a[1], n)
        E.assume(s, norm((r == 0) == tobool(c)))
        return r
    T['@memcmp'] = memcmp
    T['@bcmp'] = memcmp

    def strlen(s, f, ins, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.r == 0:
            E.oblige(s, 0, 'strlen(NULL)', 'memory')
            raise PathEnd()
        for i in range(600):
            c = E.load(s, Ptr(p.r, add(p.o, i)), ('i', 8))
            if not isint(c):
                break
            if c == 0:
                return i
        r = E.region(s, p.r)
        n = E.fresh('strlen', 64)
        if r.size is not None:
            E.assume(s, ult(n, sub(r.size, p.o)))
        return n
    T['@strlen'] = strlen

    # ---- LLVM intrinsics
    def nop(s, f, ins, a):
        return None
    for n in ('@llvm.lifetime.start', '@llvm.lifetime.end', '@llvm.dbg.declare', '@llvm.dbg.value', '@llvm.va_start',
              '@llvm.va_end', '@llvm.va_copy', '@llvm.stacksave', '@llvm.stackrestore', '@llvm.prefetch', '@llvm.donothing',
              '@__cxa_atexit', '@__cxa_end_catch', '@llvm.invariant.start', '@llvm.invariant.end'):
        T[n] = nop

    def assume_i(s, f, ins, a):
        return None
    T['@llvm.assume'] = assume_i

    def expect(s, f, ins, a):
        return a[0]
    T['@llvm.expect'] = expect

    def ovf(op):
        def fn(s, f, ins, a):
            t = E.mod.types.resolve(ins.t)
            w = t[1][0][1]
            A, B = bv(a[0], w), bv(a[1], w)
            r = E.binop(s, {'a': 'add', 's': 'sub', 'm': 'mul'}[op[1]], ('i', w), a[0], a[1])
            if op[0] == 'u':
                X, Y = z3.ZeroExt(w, A), z3.ZeroExt(w, B)
            else:
                X, Y = z3.SignExt(w, A), z3.SignExt(w, B)
            W = {'a': X + Y, 's': X - Y, 'm': X * Y}[op[1]]
            ext = z3.ZeroExt(w, bv(r, w)) if op[0] == 'u' else z3.SignExt(w, bv(r, w))
            return [r, norm(W != ext)]
        return fn
    for n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        T['@llvm.%s.with' % n] = ovf(n)
        T['@llvm.%s' % n] = ovf(n)

    def minmax(pred):
        def fn(s, f, ins, a):
            w = E.mod.types.resolve(ins.t)[1]
            return norm(ite(E.icmp(s, pred, ins.t, a[0], a[1]), a[0], a[1], w))
        return fn
    T['@llvm.umax'] = minmax('ugt')
    T['@llvm.umin'] = minmax('ult')
    T['@llvm.smax'] = minmax('sgt')
    T['@llvm.smin'] = minmax('slt')

    def bswap(s, f, ins, a):
        w = E.mod.types.resolve(ins.t)[1]
        x = a[0]
        if isint(x):
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
    T['@llvm.bswap'] = bswap
    T['@htons'] = T['@ntohs'] = T['@htonl'] = T['@ntohl'] = bswap

    def ctz(lead):
        def fn(s, f, ins, a):
            w = E.mod.types.resolve(ins.t)[1]
            x = a[0]
            r = z3.BitVecVal(w, w)
            order = range(w - 1, -1, -1) if not lead else range(w)
            X = bv(x, w)
            for i in order:
                r = z3.If(z3.Extract(i, i, X) == 1, z3.BitVecVal(i if not lead else w - 1 - i, w), r)
            return norm(r)
        return fn
    T['@llvm.cttz'] = ctz(False)
    T['@llvm.ctlz'] = ctz(True)

    def ctpop(s, f, ins, a):
        w = E.mod.types.resolve(ins.t)[1]
        X = bv(a[0], w)
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, X))
        return norm(r)
    T['@llvm.ctpop'] = ctpop

    def absi(s, f, ins, a):
        w = E.mod.types.resolve(ins.t)[1]
        A = bv(a[0], w)
        return norm(z3.If(A < 0, -A, A))
    T['@llvm.abs'] = absi

    def objectsize(s, f, ins, a):
        return (1 << 64) - 1
    T['@llvm.objectsize'] = objectsize

    def is_constant(s, f, ins, a):
        return 0
    T['@llvm.is.constant'] = is_constant
    T['@llvm.is'] = is_constant

    def trap(s, f, ins, a):
        E.oblige(s, 0, 'trap', 'ub')
        raise PathEnd()
    T['@llvm.trap'] = trap

    def assert_fail(s, f, ins, a):
        E.oblige(s, 0, 'assert(%s)' % cstring(s, a[0]), 'assert')
        raise PathEnd()
    T['@__assert_fail'] = assert_fail

    def aborts(s, f, ins, a):
        E.oblige(s, 0, 'abort-or-pure-virtual-call', 'ub')
        raise PathEnd()
    T['@abort'] = aborts
    T['@__cxa_pure_virtual'] = aborts
    T['@_ZSt9terminatev'] = aborts
    T['@__clang_call_terminate'] = aborts

    def vc_on_throw(s, f, ins, a):
        s.on_throw = (E.region(s, a[0].r).fn, a[1]) if a[0].r else None
    T['@vc_on_throw'] = vc_on_throw

    def throw(kind):
        def fn(s, f, ins, a):
            at = (E.where(s), E.stack(s))
            if kind == 'throw':
                s.exc = (a[0], E.gname.get(a[1].r, ''), 0, at)
            elif kind == 'rethrow':
                s.exc = (s.exc[0], s.exc[1], 0, at)
            else:
                p = E.alloc(s, 'exception', 16, 'heap')
                E.store(s, p, ('ptr',), Ptr(E.gptr('@_ZTV' + kind).r, 16))
                s.exc = (p, '@_ZTI' + kind, 0, at)
            raise Unwind()
        return fn
    T['@__cxa_throw'] = throw('throw')
    T['@__cxa_rethrow'] = throw('rethrow')
    for n, k in (('@_ZSt17__throw_bad_allocv', 'St9bad_alloc'), ('@_ZSt20__throw_length_errorPKc', 'St12length_error'),
                 ('@_ZSt20__throw_out_of_rangePKc', 'St12out_of_range'), ('@_ZSt24__throw_out_of_range_fmtPKcz', 'St12out_of_range'),
                 ('@_ZSt19__throw_logic_errorPKc', 'St11logic_error'), ('@_ZSt28__throw_bad_array_new_lengthv', 'St9bad_alloc'),
                 ('@_ZSt25__throw_bad_function_callv', 'St17bad_function_call')):
        T[n] = throw(k)

    def begin_catch(s, f, ins, a):
        return a[0]
    T['@__cxa_begin_catch'] = begin_catch
    T['@__cxa_get_exception_ptr'] = begin_catch

    def typeid_for(s, f, ins, a):
        return E.eh_id(E.gname[a[0].r] if a[0].r else 'null')
    T['@llvm.eh.typeid.for'] = typeid_for

    def exc_ctor(c):
        def fn(s, f, ins, a):
            E.store(s, a[0], ('ptr',), Ptr(E.gptr('@_ZTVSt' + c).r, 16))
        return fn
    for c in ('12length_error', '12out_of_range', '13runtime_error', '11logic_error', '16invalid_argument', '9bad_alloc', '9exception', '14overflow_error'):
        for x in ('C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
                  'C1EPKc', 'C2EPKc', 'C1Ev', 'C2Ev', 'C1ERKS_', 'C2ERKS_'):
            T['@_ZNSt' + c + x] = exc_ctor(c)
        for x in ('D1Ev', 'D2Ev', 'D0Ev'):
            T['@_ZNSt' + c + x] = nop

    def exc_alloc(s, f, ins, a):
        return E.alloc(s, 'exception', a[0], 'heap')
    T['@__cxa_allocate_exception'] = exc_alloc
    T['@__cxa_free_exception'] = nop

    def guard_acquire(s, f, ins, a):
        g = E.load(s, a[0], ('i', 8))
        if isint(g):
            return int(g == 0)
        return 1
    T['@__cxa_guard_acquire'] = guard_acquire

    def guard_release(s, f, ins, a):
        E.store(s, a[0], ('i', 8), 1)
    T['@__cxa_guard_release'] = guard_release
    T['@__cxa_guard_abort'] = nop

    def c_time(s, f, ins, a):
        v = E.fresh('time', 64)
        if a[0].r:
            E.store(s, a[0], ('i', 64), v)
        return v
    T['@time'] = c_time

    def io(s, f, ins, a):
        return E.fresh('io', 32)
    for n in ('@printf', '@puts', '@fputs', '@fprintf', '@vfprintf', '@vprintf', '@putchar', '@fflush', '@fputc', '@fwrite', '@putc', '@vsnprintf', '@snprintf'):
        T[n] = io

    def dyncast(s, f, ins, a):
        return a[0]
    T['@__dynamic_cast'] = dyncast
    return T
