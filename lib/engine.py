"""Path-sensitive dataflow ("property simulation", Das/Lerner/Seigle 2002) over the inlined IR.

A state = abstract values (intervals, symbolic pointers) + the typestates of tracked resources
+ a client flag set.  At a join, states with the same typestates/flags merge, values are joined;
states that differ stay apart.  Branches whose condition the abstract values decide are pruned;
null tests refine pointers.  No solver, no execution.
"""
import sys
from ir import AnalysisError

INF = 1 << 70
TOP = ('t',)
NULL = ('n',)


def I(lo, hi=None, nz=False):
    if hi is None:
        hi = lo
    return ('i', lo, hi, nz or lo > 0 or hi < 0)


ITOP = ('i', -INF, INF, False)
WIDTH = {'i1': (0, 1), 'i8': (-128, 255), 'i16': (-32768, 65535), 'i32': (-(1 << 31), (1 << 31) - 1),
         'i64': (-(1 << 63), (1 << 63) - 1)}


def ty_top(ty):
    if ty in WIDTH:
        return I(*WIDTH[ty])
    return TOP


def join(a, b):
    if a == b:
        return a
    if a[0] == 'i' and b[0] == 'i':
        return ('i', min(a[1], b[1]), max(a[2], b[2]), a[3] and b[3])
    if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
        return ('p', a[1], None)
    return TOP


class State:
    __slots__ = ('env', 'mem', 'res', 'nul', 'flags', 'vis', 'clob', 'alias', 'first')

    def __init__(s):
        s.env = {}; s.mem = {}; s.res = {}; s.nul = {}; s.flags = frozenset(); s.vis = frozenset(); s.clob = {}
        s.alias = {}; s.first = None

    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env); n.mem = dict(s.mem); n.res = dict(s.res); n.nul = dict(s.nul); n.flags = s.flags
        n.vis = s.vis; n.clob = dict(s.clob); n.alias = dict(s.alias); n.first = s.first
        return n

    def key(s, extra=()):
        return (frozenset(s.res.items()), frozenset((k, v) for k, v in s.nul.items() if k in s.res or k[0] == 'a'),
                s.flags, s.vis, extra)


class Client:
    """override; every hook may mutate the state given."""
    once = False            # assume undetermined loops run at least once (stated under-approximation)
    keyvars = False         # keep states with different constant phi values apart

    def call(self, e, st, i):           # -> list of states, or None for the default treatment
        return None

    def ret(self, e, st, i, v):
        pass

    def deref(self, e, st, i, base):
        pass

    def store(self, e, st, i, val, ptr):
        pass

    def clobbered(self, e, st, root):
        pass

    def fact(self, e, st, d, truth):
        pass

    def edge(self, e, st, pred, succ):
        pass

    def start(self, e, st):
        pass


class Engine:
    def __init__(self, fn, client, maxsteps=60000):
        self.fn = fn; self.c = client; self.maxsteps = maxsteps
        self.viol = {}
        self.steps = 0
        self.headers = {L['header']: L for L in fn.loops}
        self.parent = {}
        # phis of small int type fed by constants (status variables): kept apart in the key
        self.keyphi = set()
        for i in fn.all('phi'):
            if i.ty in ('i32', 'i1', 'i8') and any(o[0] == 'i' for o, _ in i.incoming):
                inl = any(i.bb == L['header'] for L in fn.loops)
                if not inl:
                    self.keyphi.add(i.id)

    # ---- values ----
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            return st.env.get(o[1], TOP)
        if k == 'i':
            return I(o[1])
        if k == 'null':
            return NULL
        if k == 'a':
            ty = self.fn.args[o[1]]['ty']
            if ty == 'ptr':
                return ('p', ('a', o[1]), 0)
            return st.env.get(('a', o[1]), ty_top(ty))
        if k == 'g':
            return ('p', ('g', o[1]), 0)
        if k == 'ce':
            ce = o[1]
            g = ce.get('gep')
            if g and not g.get('vo'):
                b = self.val(st, tuple(_tt(ce['ops'][0])))
                if b[0] == 'p' and b[2] is not None:
                    return ('p', b[1], b[2] + g.get('co', 0))
            return TOP
        return TOP

    def setv(self, st, o, v):
        if o[0] == 'v':
            st.env[o[1]] = v
        elif o[0] == 'a':
            st.env[('a', o[1])] = v

    def isnull(self, st, v):
        """0 no, 1 yes, 2 maybe"""
        if v[0] == 'n':
            return 1
        if v[0] == 'p':
            b = v[1]
            if b[0] in ('s', 'g'):
                return 0
            if v[2] not in (0, None):
                return 0 if st.nul.get(b, 2) == 0 else 2
            return st.nul.get(b, 2)
        if v[0] == 'i':
            if v[1] == v[2] == 0:
                return 1
            if v[3] or v[1] > 0 or v[2] < 0:
                return 0
        return 2

    # ---- transfer ----
    def run(self):
        fn = self.fn
        s0 = State()
        self.c.start(self, s0)
        work = [(fn.rpoi[0], 0)]
        self.at = {0: {s0.key(): [s0, 0]}}
        pend = {0: {s0.key()}}
        import heapq
        heap = [(0, 0)]
        inheap = {0}
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            keys = pend.pop(b, set())
            for k in keys:
                ent = self.at[b].get(k)
                if ent is None:
                    continue
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise AnalysisError('%s: state budget exceeded' % fn.name)
                for succ, st in self.block(b, ent[0].copy()):
                    for st2 in self.enter(succ, b, st):
                        kk = st2.key(self.phikey(st2))
                        tab = self.at.setdefault(succ, {})
                        old = tab.get(kk)
                        if old is None:
                            tab[kk] = [st2, 1]
                            self.parent[(succ, kk)] = (b, k)
                        else:
                            new = self.merge(old[0], st2, old[1] > 6)
                            if new is None:
                                continue
                            old[0] = new; old[1] += 1
                        pend.setdefault(succ, set()).add(kk)
                        if succ not in inheap:
                            heapq.heappush(heap, (fn.rpoi[succ], succ)); inheap.add(succ)
        return self

    def phikey(self, st):
        if not self.c.keyvars:
            return ()
        return tuple((i, st.env[i]) for i in sorted(self.keyphi) if i in st.env and st.env[i][0] == 'i'
                     and st.env[i][1] == st.env[i][2])

    def merge(self, a, b, widen):
        ch = False
        n = a.copy()
        for k in list(n.env):
            if k not in b.env:
                del n.env[k]; ch = True
            else:
                v = join(n.env[k], b.env[k])
                if v != n.env[k]:
                    if widen and v[0] == 'i':
                        o = n.env[k]
                        v = ('i', v[1] if v[1] == o[1] else -INF, v[2] if v[2] == o[2] else INF, v[3])
                    n.env[k] = v; ch = True
        for k in set(n.mem) | set(b.mem):
            va = n.mem.get(k); vb = b.mem.get(k)
            if va is None:
                va = self.initial(a, k)
            if vb is None:
                vb = self.initial(b, k)
            v = join(va, vb)
            if widen and v[0] == 'i' and v != va:
                v = ITOP
            if v != n.mem.get(k):
                n.mem[k] = v
                if v != va:
                    ch = True
        for k in set(n.clob) | set(b.clob):
            x = max(n.clob.get(k, -1), b.clob.get(k, -1))
            if n.clob.get(k) != x:
                n.clob[k] = x; ch = True
        for k in list(n.alias):
            if b.alias.get(k) != n.alias[k]:
                del n.alias[k]; ch = True
        for k in list(n.nul):
            if b.nul.get(k, 2) != n.nul[k]:
                del n.nul[k]; ch = True
        return n if ch else None

    def initial(self, st, cell):
        base, off, ty = cell
        if base[0] == 's':
            return TOP
        if base[0] == 'r' and not self.given(base):
            return TOP
        if ty == 'ptr':
            return ('p', ('f', base, off, st.clob.get(self.root(base), -1)), 0)
        return ty_top(ty)

    def root(self, b):
        while b[0] in ('f', 'e'):
            b = b[1]
        return b

    def enter(self, succ, pred, st):
        fn = self.fn
        new = {}
        for i in fn.blocks[succ]:
            if i.op != 'phi':
                break
            for o, pb in i.incoming:
                if pb == pred:
                    v = self.val(st, o)
                    if v == TOP:
                        v = ty_top(i.ty)
                    new[i.id] = (v, o)
                    break
        for k, (v, o) in new.items():
            st.env[k] = v
            st.alias.pop(k, None)
            if o[0] == 'v':
                st.alias[k] = o
        if succ in self.headers and pred in self.headers[succ]['blocks']:
            # entering a new iteration: values computed in the previous one are stale
            L = set(self.headers[succ]['blocks'])
            for k in list(st.alias):
                if isinstance(k, int) and k in fn.insts and fn.insts[k].bb in L and k not in new:
                    del st.alias[k]
            for k, (v, o) in new.items():
                st.alias.pop(k, None)
        self.c.edge(self, st, pred, succ)
        yield st

    def block(self, b, st):
        fn = self.fn
        cur = [st]
        out = []
        for i in fn.blocks[b]:
            if i.op == 'phi':
                continue
            nxt = []
            for s in cur:
                if i.op == 'call':
                    r = self.do_call(s, i)
                    nxt.extend(r)
                elif i.op == 'br':
                    if len(i.succ) == 1:
                        out.append((i.succ[0], s))
                    else:
                        out.extend(self.branch(b, s, i))
                elif i.op == 'switch':
                    out.extend(self.switch(s, i))
                elif i.op == 'ret':
                    self.c.ret(self, s, i, self.val(s, i.ops[0]) if i.ops else None)
                elif i.op == 'unreachable':
                    pass
                else:
                    self.simple(s, i)
                    nxt.append(s)
            cur = nxt
            if not cur:
                break
            # merge states created inside the block
            if len(cur) > 1:
                tab = {}
                for s in cur:
                    k = s.key(self.phikey(s))
                    if k in tab:
                        m = self.merge(tab[k], s, False)
                        if m is not None:
                            tab[k] = m
                    else:
                        tab[k] = s
                cur = list(tab.values())
        return out

    def branch(self, b, st, i):
        cond, t, f = i.ops[0], i.succ, None
        # irdump lists successors in order true, false
        res = []
        L = self.headers.get(b)
        for truth, succ in ((True, i.succ[0]), (False, i.succ[1])):
            for s in self.refine(st.copy(), cond, truth):
                res.append((succ, s))
        if self.c.once and L is not None:
            blocks = set(L['blocks'])
            inside = [x for x in res if x[0] in blocks]
            outside = [x for x in res if x[0] not in blocks]
            if inside and outside and b not in st.vis:
                res = inside
            for succ, s in res:
                if succ in blocks:
                    s.vis = s.vis | {b}
        return res

    def switch(self, st, i):
        res = []
        v = self.val(st, i.ops[0])
        for c, bb in i.cases:
            if v[0] == 'i' and not (v[1] <= c <= v[2]):
                continue
            s = st.copy()
            self.setv(s, i.ops[0], I(c))
            res.append((bb, s))
        if not (v[0] == 'i' and v[1] == v[2] and any(c == v[1] for c, _ in i.cases)):
            res.append((i.default, st.copy()))
        return res

    def refine(self, st, cond, truth, depth=0):
        """states in which cond == truth ([] if infeasible)."""
        v = self.val(st, cond)
        if v[0] == 'i' and v[1] == v[2]:
            return [st] if bool(v[1]) == truth else []
        if cond[0] != 'v' or depth > 12:
            return [st]
        st.env[cond[1]] = I(1 if truth else 0)
        d = self.fn.insts.get(cond[1])
        if d is None:
            return [st]
        if d.op == 'phi':
            a = st.alias.get(d.id)
            if a:
                return self.refine(st, a, truth, depth + 1)
            return [st]
        if d.op in ('icmp', 'fcmp'):
            self.c.fact(self, st, d, truth)
        if d.op == 'icmp':
            return self.refine_icmp(st, d, truth, depth)
        if d.op == 'xor' and d.ty == 'i1':
            for x, y in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
                if y == ('i', 1):
                    return self.refine(st, x, not truth, depth + 1)
            return [st]
        if d.op in ('and', 'or') and d.ty == 'i1':
            both = (d.op == 'and') == truth
            if both:
                r = []
                for s in self.refine(st, d.ops[0], truth, depth + 1):
                    r += self.refine(s, d.ops[1], truth, depth + 1)
                return r
            r = self.refine(st.copy(), d.ops[0], truth, depth + 1)
            for s in self.refine(st, d.ops[0], not truth, depth + 1):
                r += self.refine(s, d.ops[1], truth, depth + 1)
            return r
        if d.op == 'select' and d.ty == 'i1':
            r = []
            for s in self.refine(st.copy(), d.ops[0], True, depth + 1):
                r += self.refine(s, d.ops[1], truth, depth + 1)
            for s in self.refine(st, d.ops[0], False, depth + 1):
                r += self.refine(s, d.ops[2], truth, depth + 1)
            return r
        if d.op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.refine_int(st, d.ops[0], 'ne' if truth else 'eq', I(0), depth + 1)
        return [st]

    def refine_icmp(self, st, d, truth, depth):
        p = d.pred
        if not truth:
            p = NEG[p]
        a, b = d.ops
        va, vb = self.val(st, a), self.val(st, b)
        # pointer tests
        if p in ('eq', 'ne') and (va[0] in 'pn' or vb[0] in 'pn' or self.isptr(a) or self.isptr(b)):
            na, nb = self.isnull(st, va), self.isnull(st, vb)
            if nb == 1 or na == 1:
                o, v, n = (a, va, na) if nb == 1 else (b, vb, nb)
                if n != 2:
                    return [st] if (n == 1) == (p == 'eq') else []
                if v[0] == 'p' and v[2] in (0,):
                    self.set_null(st, v[1], 1 if p == 'eq' else 0)
                    if p == 'eq':
                        self.setv(st, o, NULL)
                elif p == 'eq':
                    self.setv(st, o, NULL)
                return [st]
            return [st]
        r = []
        for s in self.refine_int(st, a, p, vb, depth):
            r += self.refine_int(s, b, SWP[p], self.val(s, a), depth)
        return r

    def isptr(self, o):
        if o[0] == 'null':
            return True
        if o[0] == 'v':
            d = self.fn.insts.get(o[1])
            return d is not None and d.ty == 'ptr'
        if o[0] == 'a':
            return self.fn.args[o[1]]['ty'] == 'ptr'
        return o[0] == 'g'

    def set_null(self, st, base, n):
        st.nul[base] = n
        if n == 1:
            h = getattr(self.c, 'on_null', None)
            if h:
                h(self, st, base)
            for k, v in list(st.env.items()):
                if v[0] == 'p' and v[1] == base:
                    st.env[k] = NULL
            for k, v in list(st.mem.items()):
                if v[0] == 'p' and v[1] == base:
                    st.mem[k] = NULL

    def refine_int(self, st, o, p, vb, depth):
        v = self.val(st, o)
        if v[0] == 't':
            d = self.fn.insts.get(o[1]) if o[0] == 'v' else None
            v = ty_top(d.ty) if d is not None and d.ty else v
        if v[0] != 'i' or vb[0] != 'i':
            return [st]
        lo, hi, nz = v[1], v[2], v[3]
        if p in ('slt', 'ult'):
            hi = min(hi, vb[2] - 1)
        elif p in ('sle', 'ule'):
            hi = min(hi, vb[2])
        elif p in ('sgt', 'ugt'):
            lo = max(lo, vb[1] + 1)
        elif p in ('sge', 'uge'):
            lo = max(lo, vb[1])
        elif p == 'eq':
            lo, hi = max(lo, vb[1]), min(hi, vb[2])
            nz = nz or vb[3]
        elif p == 'ne':
            if vb[1] == vb[2]:
                c = vb[1]
                if lo == hi == c:
                    return []
                if lo == c:
                    lo += 1
                if hi == c:
                    hi -= 1
                if c == 0:
                    nz = True
        if p[0] == 'u' and (v[1] < 0 or vb[1] < 0):
            return [st]
        if lo > hi or (nz and lo == hi == 0):
            return []
        nv = ('i', lo, hi, nz or lo > 0 or hi < 0)
        self.setv(st, o, nv)
        if o[0] == 'v' and depth < 12:
            d = self.fn.insts.get(o[1])
            if d is not None:
                if d.op in ('zext', 'sext', 'trunc', 'freeze'):
                    src = self.fn.insts.get(d.ops[0][1]) if d.ops[0][0] == 'v' else None
                    if src is not None and src.ty == 'i1':
                        if nv[1] == nv[2] == 0:
                            return self.refine(st, d.ops[0], False, depth + 1)
                        if nv[3]:
                            return self.refine(st, d.ops[0], True, depth + 1)
                    elif d.op != 'trunc':
                        return self.refine_int(st, d.ops[0], 'sge', I(nv[1]), depth + 1) and \
                            self.refine_int(st, d.ops[0], 'sle', I(nv[2]), depth + 1)
                elif d.op == 'phi' and d.id in st.alias:
                    return self.refine_int(st, st.alias[d.id], p, vb, depth + 1)
                elif d.op == 'load':
                    ptr = self.val(st, d.ops[0])
                    if ptr[0] == 'p' and ptr[2] is not None:
                        cell = (ptr[1], ptr[2], d.ty)
                        if st.mem.get(cell, None) is not None and ptr[1][0] == 's':
                            pass
                elif d.op == 'select':
                    t, f = self.val(st, d.ops[1]), self.val(st, d.ops[2])
                    okT = t[0] != 'i' or not disjoint(t, nv)
                    okF = f[0] != 'i' or not disjoint(f, nv)
                    if okT and not okF:
                        return self.refine(st, d.ops[0], True, depth + 1)
                    if okF and not okT:
                        return self.refine(st, d.ops[0], False, depth + 1)
        return [st]

    def addr(self, st, o):
        return self.val(st, o)

    def simple(self, st, i):
        op = i.op
        if op == 'alloca':
            st.env[i.id] = ('p', ('s', i.id), 0)
            return
        if op == 'getelementptr':
            b = self.val(st, i.ops[0])
            if b[0] != 'p':
                st.env[i.id] = TOP
                return
            g = i.gep or {}
            off = b[2]
            if off is not None:
                off = off + g.get('co', 0) if g else None
                if g and g.get('vo'):
                    off = None      # a variable index: some element
            st.env[i.id] = ('p', b[1], off)
            return
        if op == 'load':
            p = self.val(st, i.ops[0])
            self.use_ptr(st, i, p)
            st.env[i.id] = self.load(st, p, i.ty)
            st.alias.pop(i.id, None)
            return
        if op == 'store':
            v = self.val(st, i.ops[0]); p = self.val(st, i.ops[1])
            self.use_ptr(st, i, p)
            self.c.store(self, st, i, v, p)
            if p[0] == 'p':
                if p[2] is None:
                    for k in list(st.mem):
                        if k[0] == p[1]:
                            st.mem[k] = TOP
                    st.mem[(p[1], None, 'x')] = TOP
                else:
                    for k in list(st.mem):
                        if k[0] == p[1] and k[1] == p[2]:
                            del st.mem[k]
                    st.mem[(p[1], p[2], i.sty)] = v
            return
        if op == 'icmp':
            st.env.pop(i.id, None)
            t = self.refine_icmp(st.copy(), i, True, 20)
            f = self.refine_icmp(st.copy(), i, False, 20)
            st.env[i.id] = I(1) if not f else I(0) if not t else I(0, 1)
            return
        if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.val(st, i.ops[0])
            if op in ('ptrtoint', 'inttoptr'):
                st.env[i.id] = v
                return
            if v[0] == 'i' and op == 'trunc' and i.ty in WIDTH:
                lo, hi = WIDTH[i.ty]
                if not (lo <= v[1] and v[2] <= hi):
                    v = ty_top(i.ty)
            if v == TOP:
                v = ty_top(i.ty)
            if op == 'zext' and v[0] == 'i' and v[1] < 0:
                v = ty_top(i.ty)
            if op == 'sext' and i.frm == 'i1':
                v = ITOP
            st.env[i.id] = v
            return
        if op in ('add', 'sub', 'mul'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if a[0] == 'i' and b[0] == 'i':
                if op == 'add':
                    lo, hi = a[1] + b[1], a[2] + b[2]
                elif op == 'sub':
                    lo, hi = a[1] - b[2], a[2] - b[1]
                else:
                    c = [x * y for x in a[1:3] for y in b[1:3]]
                    lo, hi = min(c), max(c)
                st.env[i.id] = ('i', max(lo, -INF), min(hi, INF), lo > 0 or hi < 0)
            else:
                st.env[i.id] = ty_top(i.ty)
            return
        if op in ('and', 'or', 'xor') and i.ty == 'i1':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if a[0] == 'i' and b[0] == 'i' and a[1] == a[2] and b[1] == b[2]:
                st.env[i.id] = I({'and': a[1] & b[1], 'or': a[1] | b[1], 'xor': a[1] ^ b[1]}[op])
            elif op == 'and' and (a == I(0) or b == I(0)):
                st.env[i.id] = I(0)
            elif op == 'or' and (a == I(1) or b == I(1)):
                st.env[i.id] = I(1)
            else:
                st.env[i.id] = I(0, 1)
            return
        if op == 'select':
            c = self.val(st, i.ops[0])
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if c[0] == 'i' and c[1] == c[2]:
                st.env[i.id] = a if c[1] else b
            else:
                st.env[i.id] = join(a, b)
            return
        if i.ty:
            st.env[i.id] = ty_top(i.ty)

    def load(self, st, p, ty):
        if p[0] != 'p':
            return ty_top(ty)
        if ty == 'ptr' and depth(p[1]) > 6:
            return TOP
        if p[2] is None:
            if ty == 'ptr':
                return ('p', ('e', p[1]), 0)
            return ty_top(ty)
        cell = (p[1], p[2], ty)
        v = st.mem.get(cell)
        if v is not None:
            return v
        for k in st.mem:
            if k[0] == p[1] and (k[1] == p[2] or k[1] is None):
                if ty == 'ptr' and k[1] is None:
                    return ('p', ('e', p[1]), 0)
                return ty_top(ty)
        return self.initial(st, cell) if ty == 'ptr' or p[1][0] in ('a', 'f') else ty_top(ty)

    def use_ptr(self, st, i, p):
        if p[0] == 'p':
            self.c.deref(self, st, i, p[1])
        elif p[0] == 'n':
            self.c.deref(self, st, i, ('null',))

    def given(self, r):
        """a block set up by a project function: its fields have names, as those of an argument have."""
        d = self.fn.insts.get(r[1])
        g = self.fn.mod.funcs.get(d.callee) if d is not None and d.op == 'call' and d.callee else None
        return g is not None and not g.decl

    def clobber(self, st, i, ptrs):
        for p in ptrs:
            if p[0] != 'p':
                continue
            r = self.root(p[1])
            st.clob[r] = i.id
            self.c.clobbered(self, st, r)
            for k in list(st.mem):
                if self.root(k[0]) == r:
                    del st.mem[k]
                    if r[0] == 's' or r[0] == 'r' and not self.given(r):
                        st.mem[k] = TOP

    def do_call(self, st, i):
        if i.callee and i.callee.startswith('llvm.'):
            if i.callee.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                self.use_ptr(st, i, self.val(st, i.ops[0]))
                p = self.val(st, i.ops[0])
                if p[0] == 'p':
                    for k in list(st.mem):
                        if k[0] == p[1]:
                            st.mem[k] = TOP
            elif i.ty and i.ty != 'void':
                st.env[i.id] = ty_top(i.ty)
            return [st]
        r = self.c.call(self, st, i)
        if r is not None:
            return r
        return [self.default_call(st, i)]

    def default_call(self, st, i, clobber=True):
        if i.ty and i.ty != 'void':
            st.env[i.id] = ('p', ('c', i.id), 0) if i.ty == 'ptr' else ty_top(i.ty)
            st.nul.pop(('c', i.id), None)
        st.alias.pop(i.id, None)
        if clobber:
            self.clobber(st, i, [self.val(st, o) for o in i.ops])
        return st

    def report(self, rule, i, st, detail, site=None):
        k = (rule, site if site is not None else (i.where() if i is not None else self.fn.name), detail)
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, function=self.fn.name, file=self.fn.file,
                                site=i.where() if i is not None else '', detail=detail)


def depth(b):
    n = 0
    while b[0] in ('f', 'e'):
        b = b[1]; n += 1
    return n


def disjoint(a, b):
    return a[2] < b[1] or b[2] < a[1] or (b[3] and a[1] == a[2] == 0) or (a[3] and b[1] == b[2] == 0)


def _tt(o):
    return tuple(o) if isinstance(o, list) else o


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
       'ugt': 'ule', 'ule': 'ugt'}
SWP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
       'ule': 'uge', 'uge': 'ule'}
