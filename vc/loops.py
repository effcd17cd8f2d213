"""Loop rule: complete unrolling when it terminates by itself, otherwise a cut with inductive invariants.

The invariant is the largest subset of the candidates that holds on entry and is preserved (Houdini).  Candidates come
from the contract file (vc_invariant functions over the abstract state) and from templates over everything the loop
changes, so they do not depend on the names or the shape of the code's own variables."""
import re
import time
import z3


def handle_loop(self, s, h):
    from engine import UnrollFail
    depth = len(s.frames)
    f = s.frames[-1]
    body = f.fn.loops[h]
    key = (f.fn.name, h)
    info = self.loops_info.setdefault(key, {'unrolled': 0, 'cut': 0, 'fail': 0, 'inv': None})
    if info['fail'] < 3 and not (s.pathlog and not re.search('boost9container(4list|8sym_list|8con_list)', f.fn.name.split('I')[0])):
        n_obl = None
        try:
            s2 = s.copy()
            s2.uc[(depth, h)] = 0
            s2.pending = None
            f2 = s2.frames[-1]
            self.edge(s2, f2, h)
            ctl = {'max': self.opts.get('unroll', 80), 'n': 0, 'maxn': self.opts.get('unroll_n', 300), 'sym': 0,
                   'maxsym': self.maxsym(s)}
            outs = self.explore([s2], depth, (depth, h, body, 'unroll', ctl))
            info['unrolled'] += 1
            return [o for o, why in outs if why == 'exit']
        except UnrollFail:
            info['fail'] += 1
    info['cut'] += 1
    res = []
    for s1 in self.run_hooks(s):
        res.extend(self.cut_loop(s1, h, info))
    return res


def run_hooks(self, s):
    """close open views of ghost containers (registered by the contract library)"""
    if not s.hooks:
        return [s]
    states = [s]
    for fn, arg in s.hooks:
        nxt = []
        for st in states:
            pend = st.pending
            st.pending = None
            for o in self.run_function(st, fn, [arg]):
                o.pending = pend
                nxt.append(o)
        states = nxt
    return states


def _same(a, b):
    from engine import Ptr
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r == b.r and _same(a.o, b.o)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


class Dead:
    def __repr__(self):
        return 'dead'


DEAD = Dead()


def _diff(self, s0, b, cells, ranges, sizes):
    """memory changed between the loop head s0 and the back edge b"""
    from engine import Unsupported
    ch = False
    for rid, r0 in s0.regs.items():
        r1 = b.regs.get(rid)
        if r1 is r0:
            continue
        if r1 is None:
            if rid in self.gname:  # a global this path has not touched
                continue
            raise Unsupported('object freed in loop: %s %s' % (r0.name, r0.kind))
        if r0.alive != r1.alive:
            raise Unsupported('object freed in loop (%s)' % r0.name)
        if not _same(r0.size, r1.size) and ('size', rid) not in sizes:
            sizes.add(('size', rid))
            ch = True
        if r0.cells is not r1.cells:
            for o, (n, v) in r1.cells.items():
                c0 = r0.cells.get(o)
                if c0 is not None and c0[0] == n and _same(c0[1], v):
                    continue
                if (rid, o, n) not in cells:
                    if c0 is not None and c0[0] != n:
                        raise Unsupported('cell layout changes in loop (%s+%d)' % (r0.name, o))
                    cells.add((rid, o, n))
                    ch = True
        if r0.br is not r1.br:
            k0 = {lo: m for lo, hi, m in r0.br} if all(isinstance(x[0], int) for x in r0.br) else {}
            for lo, hi, m in r1.br:
                if lo in k0 and k0[lo] is m:
                    continue
                if (rid, lo) not in ranges:
                    ranges.add((rid, lo))
                    ch = True
    # regions that only exist after promotion or lazily created globals are read from their initialiser again
    for rid, r1 in b.regs.items():
        if rid not in s0.regs and rid in self.gname:
            g0 = self.make_global(s0, self.gname[rid], rid)
            if r1.kind != 'func' and not r1.ro:
                s0.regs[rid] = g0
                ch = True
    return ch


def _items(self, s0, phis, cells, sizes):
    return [('phi', n, w) for n, w in phis] + [('cell', r, o, n) for r, o, n in sorted(cells)] + sorted(sizes)


def _get(s, it):
    """(region or None, value, width)"""
    from engine import Ptr
    if it[0] == 'phi':
        v = s.frames[-1].loc.get(it[1])
        w = it[2]
    elif it[0] == 'cell':
        r = s.regs.get(it[1])
        c = r.cells.get(it[2]) if r is not None else None
        if c is None or c[0] != it[3]:
            return ('none', None, 0)
        v = c[1]
        w = it[3] * 8
    else:
        return (None, s.regs[it[1]].size, 64)
    if isinstance(v, Ptr):
        return (v.r, v.o, 64)
    if isinstance(v, int) or z3.is_expr(v):
        if z3.is_bv(v) and v.size() != w:
            w = v.size()
        return (None, v, w)
    return ('none', None, 0)


def _havoc(self, s0, items, ranges, shapes, entry_mem):
    """states at an arbitrary iteration: every item fresh, one state per combination of pointer shapes"""
    from engine import Ptr, Unsupported
    states = [s0.copy()]
    for it in items:
        shp = shapes[it]
        nxt = []
        for st in states:
            for k, sh in enumerate(sorted(shp, key=str)):
                s2 = st if k == len(shp) - 1 else st.copy()
                nm = 'lv_%s' % '_'.join(str(x) for x in it[1:3])
                if sh == 'dead':
                    r = self.wregion(s2, it[1])
                    self.clear_cells(r, it[2], it[3])
                    r.cells[it[2]] = (it[3], DEAD)
                    nxt.append(s2)
                    continue
                if sh == 'int':
                    if it[0] == 'phi':
                        v = self.fresh(nm, it[2])
                    elif it[0] == 'cell':
                        v = self.fresh(nm, it[3] * 8)
                    else:
                        v = self.fresh(nm, 64)
                elif sh == 'opq':
                    from engine import Opq
                    v = Opq()
                else:
                    v = Ptr(sh, self.fresh(nm, 64)) if sh != 0 else Ptr(0, 0)
                    if sh != 0 and self.region(s2, sh).kind == 'func':
                        v = Ptr(sh, 0)
                if it[0] == 'phi':
                    s2.frames[-1].loc[it[1]] = v
                elif it[0] == 'cell':
                    r = self.wregion(s2, it[1])
                    if it[2] not in r.cells:
                        self.clear_cells(r, it[2], it[3])
                    r.cells[it[2]] = (it[3], v)
                else:
                    r = self.wregion(s2, it[1])
                    r.size = v
                    r.br = tuple((lo, v if lo == 0 and k2 == 0 else hi, m) for k2, (lo, hi, m) in enumerate(r.br))
                nxt.append(s2)
        states = nxt
        if len(states) > 32:
            raise Unsupported('too many pointer shapes in loop')
    for st in states:
        st.model = None
        for rid, lo in sorted(ranges):
            r = self.wregion(st, rid)
            r.br = tuple((a, b, self.fresh_arr('loopmem', m.w) if a == lo else m) for a, b, m in r.br)
    return states


def _shape(it, s):
    from engine import Ptr, Opq
    if it[0] == 'phi':
        v = s.frames[-1].loc.get(it[1])
    elif it[0] == 'cell':
        r = s.regs.get(it[1])
        c = r.cells.get(it[2]) if r else None
        v = c[1] if c and c[0] == it[3] else None
    else:
        return 'int'
    if isinstance(v, Ptr):
        return v.r
    if isinstance(v, Opq):
        return 'opq'
    return 'int'


def _cands(self, s0, items, consts, steps):
    C = []
    E = [_get(s0, it) for it in items]
    n = len(items)
    for i in range(n):
        r, v, w = E[i]
        if r == 'none':
            continue
        if w == 1 or w == 8:
            C.append(('eqE', i))
            if w == 8:
                C.append(('le1', i))
            continue
        C += [('eqE', i), ('leE', i), ('geE', i)]
        for k, (cr, cv) in enumerate(consts):
            if cr == r:
                C += [('lec', i, k), ('gec', i, k)]
        for st in steps.get(i, ()):
            C.append(('step', i, st))
    wide = [i for i in range(n) if E[i][0] != 'none' and E[i][2] > 8]
    if len(wide) > 14:
        wide = wide[:14]
    for a in range(len(wide)):
        for b in range(a + 1, len(wide)):
            i, j = wide[a], wide[b]
            C += [('dd', i, j), ('ds', i, j), ('le', i, j), ('le', j, i)]
    if len(wide) <= 8:
        for a in range(len(wide)):
            for b in range(a + 1, len(wide)):
                for c in range(len(wide)):
                    if c != a and c != b:
                        C.append(('sum3', wide[a], wide[b], wide[c]))
    return C, E


def _x64(v, w):
    from engine import bv
    if isinstance(v, int):
        return z3.BitVecVal(v, 64)
    if z3.is_bool(v):
        return bv(v, 64)
    if v.size() == 64:
        return v
    if v.size() > 64:
        return z3.Extract(63, 0, v)
    return z3.ZeroExt(64 - v.size(), v)


def _eval(self, c, s, items, E, consts, users, cache):
    from engine import norm
    k = c[0]
    if k == 'user':
        u = users[c[1]]
        if len(c) > 2:
            vs = []
            for i in c[2:]:
                ng = i < 0
                rr, v, w = _get(s, items[-i - 1 if ng else i])
                if rr == 'none':
                    return 0
                if ng:
                    v = norm(z3.If(_x64(v, w) == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
                    w = 64
                vs.append(norm(_x64(v, w)))
            return self.eval_pure(s, u[0], u[1] + vs)
        return self.eval_pure(s, u[0], u[1])

    def g(i):
        r = cache.get(i)
        if r is None:
            rr, v, w = _get(s, items[i])
            r = cache[i] = (rr, None if rr == 'none' else _x64(v, w))
        return r

    def e(i):
        r = cache.get(('E', i))
        if r is None:
            rr, v, w = E[i]
            r = cache[('E', i)] = (rr, _x64(v, w))
        return r
    i = c[1]
    ri, vi = g(i)
    if ri == 'none':
        return 0
    if k in ('eqE', 'leE', 'geE', 'step'):
        re, ve = e(i)
        if re != ri:
            return 1 if k != 'eqE' else 0
        if k == 'eqE':
            return norm(vi == ve)
        if k == 'leE':
            return norm(z3.ULE(vi, ve))
        if k == 'step':
            return norm(z3.URem(vi - ve, z3.BitVecVal(c[2], 64)) == 0)
        return norm(z3.UGE(vi, ve))
    if k == 'le1':
        return norm(z3.ULE(vi, 1))
    if k in ('lec', 'gec'):
        cr, cv = consts[c[2]]
        if cr != ri:
            return 1
        cv = _x64(cv, 64)
        return norm(z3.ULE(vi, cv) if k == 'lec' else z3.UGE(vi, cv))
    j = c[2]
    rj, vj = g(j)
    if rj == 'none':
        return 0
    if k == 'le':
        if (ri or 0) != (rj or 0) and ri is not None and rj is not None:
            return 1
        return norm(z3.ULE(vi, vj))
    rei, ei = e(i)
    rej, ej = e(j)
    if rei != ri or rej != rj:
        return 1
    if k == 'dd':
        return norm(vi - ei == vj - ej)
    if k == 'ds':
        return norm(vi - ei == ej - vj)
    if k == 'sum3':
        l = c[3]
        rl, vl = g(l)
        rel, el = e(l)
        if rl != rel:
            return 1
        return norm((vi - ei) + (vj - ej) == vl - el)
    raise AssertionError(k)


def _filter(self, s, C, ev):
    """largest subset of C (by falsification) implied in state s"""
    from engine import land, lnot, tobool
    terms = {}
    keep = []
    for c in C:
        t = ev(c)
        if isinstance(t, int):
            if t:
                keep.append(c)
            continue
        terms[c] = t
        keep.append(c)
    if not terms:
        return keep
    rounds = 0
    while True:
        sym = [c for c in keep if c in terms]
        if not sym:
            return keep
        rounds += 1
        r, m = self.check(s, [lnot(land(*[terms[c] for c in sym]))], 6000)
        if r == 'unsat':
            return keep
        if r == 'sat' and m is not None:
            drop = set()
            for c in sym:
                if z3.is_false(m.eval(tobool(terms[c]), model_completion=True)):
                    drop.add(c)
            if not drop:
                drop = set(sym[:1]) if len(sym) == 1 else self_check_each(self, s, sym, terms)
            keep = [c for c in keep if c not in drop]
            continue
        # unknown: one by one
        drop = self_check_each(self, s, sym, terms)
        return [c for c in keep if c not in drop]


def self_check_each(self, s, sym, terms):
    from engine import lnot
    drop = set()
    for c in sym:
        r, m = self.check(s, [lnot(terms[c])], 20000 if c[0] == 'user' else 2500)
        if r != 'unsat':
            drop.add(c)
    return drop


def cut_loop(self, s, h, info):
    from engine import Unsupported, land, Ptr, norm
    depth = len(s.frames)
    f = s.frames[-1]
    body = f.fn.loops[h]
    s0 = s.copy()
    s0.pending = None
    s0.uc = {}
    self.edge(s0, s0.frames[-1], h)
    phis = []
    for ins in f.fn.blocks[h]:
        if ins.op != 'phi':
            break
        t = self.mod.types.resolve(ins.t)
        phis.append((ins.res, t[1] if t[0] == 'i' else 64))
    cells, ranges, sizes = set(), set(), set()
    shapes = {}
    probes = set()
    backs = []
    for rnd in range(12):
        items = self._items(s0, phis, cells, sizes)
        for it in items:
            if 'dead' not in shapes.setdefault(it, set()):
                shapes[it].add(_shape(it, s0))
        heads = self._havoc(s0, items, ranges, shapes, None)
        for hd in heads:
            hd.probes = set()
        self.probe += 1
        try:
            outs = self.explore(heads, depth, (depth, h, body, 'cut'))
            backs = []
            for o, why in outs:
                if o.probes:
                    probes |= o.probes
                if why == 'back':
                    for b in self.run_hooks(o):
                        b.pending = None
                        self.edge(b, b.frames[-1], h)
                        backs.append(b)
        finally:
            self.probe -= 1
        ch = False
        for b in backs:
            if self._diff(s0, b, cells, ranges, sizes):
                ch = True
        items = self._items(s0, phis, cells, sizes)
        for it in items:
            sh = shapes.setdefault(it, set())
            for b in backs:
                x = _shape(it, b)
                if 'dead' in sh:
                    break
                if x not in sh:
                    if isinstance(x, int) and x and x not in s0.regs and x not in self.gname:
                        if it[0] == 'cell':
                            # a pointer to an object made in the loop: not known at the head (reading it there is refused)
                            shapes[it] = {'dead'}
                            ch = True
                            break
                        raise Unsupported('a fresh object is carried around the loop at %s (%s %s)' % (self.where(s), it, s0.regs[it[1]].name if it[0] == 'cell' and it[1] in s0.regs else ''))
                    sh.add(x)
                    ch = True
        if not ch:
            break
    else:
        raise Unsupported('loop effects do not stabilise')
    # constants to compare with
    consts = []
    seen = set()

    def addc(r, v):
        k = (r, v if isinstance(v, int) else v.sexpr())
        if k not in seen and len(consts) < 14:
            seen.add(k)
            consts.append((r, v))
    fl = s0.frames[-1].loc
    modd = set()
    for b in body:
        for ins in f.fn.blocks[b]:
            if ins.res:
                modd.add(ins.res)
    for b in body:
        for ins in f.fn.blocks[b]:
            if ins.op == 'icmp':
                for v in ins.a[1:]:
                    if v[0] == 'c':
                        addc(None, v[1])
                    elif v[0] == 'l' and v[1] not in modd:
                        x = fl.get(v[1])
                        if isinstance(x, Ptr):
                            if x.r:
                                addc(x.r, x.o)
                        elif isinstance(x, int) or (z3.is_bv(x) and x.size() == 64):
                            addc(None, x)
    cellset = set((r, o) for r, o, n in cells)
    for (r, o) in sorted(probes, key=str):
        if (r, o) in cellset or not isinstance(o, int):
            continue
        rg = s0.regs.get(r)
        if rg is None:
            continue
        c = rg.cells.get(o)
        if c and c[0] == 8:
            v = c[1]
            if isinstance(v, Ptr):
                if v.r:
                    addc(v.r, v.o)
            elif isinstance(v, int) or (z3.is_bv(v) and v.size() == 64):
                addc(None, v)
    # strides
    steps = {}
    for i, it in enumerate(items):
        for hd in heads[:1]:
            for b in backs:
                r0, v0, w0 = _get(hd, it)
                r1, v1, w1 = _get(b, it)
                if r0 == r1 and r0 != 'none' and w0 == 64 and v0 is not None and not isinstance(v0, int):
                    d = norm(_x64(v1, 64) - _x64(v0, 64))
                    if isinstance(d, int) and d > 1 and d < 4096:
                        steps.setdefault(i, set()).add(d)
    C, E = self._cands(s0, items, consts, steps)
    users = list(s0.invs)
    U = []
    for k, u in enumerate(users):
        if len(u) == 2:
            U.append(('user', k))
        elif u[2] == 'b':
            nar = [i for i in range(len(items)) if E[i][0] != 'none' and E[i][2] in (1, 8)][:4]
            w64 = [i for i in range(len(items)) if E[i][0] != 'none' and E[i][2] in (32, 64)][:7]
            U += [('user', k, i, j) for i in nar for j in w64] + [('user', k, -i - 1, j) for i in nar for j in w64]
        elif u[2] == 2:
            w64 = [i for i in range(len(items)) if E[i][0] != 'none' and E[i][2] in (32, 64)][:7]
            U += [('user', k, i, j) for i in w64 for j in w64 if i != j]
        else:
            U += [('user', k, i) for i in range(len(items)) if E[i][0] != 'none' and E[i][2] in (32, 64)]
    C = U + C
    cE = {}
    C = _filter(self, s0, C, lambda c: _eval(self, c, s0, items, E, consts, users, cE))
    while True:
        heads = self._havoc(s0, items, ranges, shapes, None)
        live = []
        for hd in heads:
            ch = {}
            ts = [_eval(self, c, hd, items, E, consts, users, ch) for c in C]
            ts = [t for t in ts if not (isinstance(t, int) and t)]
            if any(isinstance(t, int) for t in ts):
                continue
            if ts:
                hd.pc.append(z3.And(*ts) if len(ts) > 1 else ts[0])
            r, m = self.check(hd, [], 10000)
            if r == 'unsat':
                continue
            hd.model = m
            live.append(hd)
        self.probe += 1
        n0 = len(C)
        try:
            outs = self.explore([x.copy() for x in live], depth, (depth, h, body, 'cut'))
            for o, why in outs:
                if why != 'back':
                    continue
                for b in self.run_hooks(o):
                    b.pending = None
                    self.edge(b, b.frames[-1], h)
                    cb = {}
                    C = _filter(self, b, C, lambda c: _eval(self, c, b, items, E, consts, users, cb))
        finally:
            self.probe -= 1
        if len(C) == n0:
            break
    info['inv'] = [c for c in C if c[0] == 'user']
    info['n_auto'] = len([c for c in C if c[0] != 'user'])
    info['items'] = len(items)
    if self.trace:
        print('LOOP', f.fn.name, h, 'items', items, 'E', [str(e[1])[:40] for e in E], 'kept', C, 'consts', [str(c)[:60] for c in consts])
    outs = self.explore(live, depth, (depth, h, body, 'cut'))
    return [o for o, why in outs if why == 'exit']
