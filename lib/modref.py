"""What each function may modify: interprocedural mod analysis with field paths.

Abstract locations: ('arg', k, path) - memory reached from parameter k; path is a tuple of struct field names, with
'*' for following a stored pointer and array elements merged; ('loc', id) - an alloca or a heap block of this call;
('glob', name). Points-to sets are flow-insensitive within a function; calls apply the callee's summary."""
from ir import split_array

FRESH = {'malloc', 'calloc', 'realloc', 'fopen', 'strdup', 'strndup'}
# library functions: which arguments they write through
WRITES = {'strcpy': [0], 'strncpy': [0], 'strcat': [0], 'strncat': [0], 'sprintf': [0], 'snprintf': [0],
          'vsnprintf': [0], 'fgets': [0], 'fread': [0], 'getline': [0, 1], 'qsort': [0], 'memmove': [0], 'memcpy': [0],
          'memset': [0], 'strtok': [0], 'modf': [1], 'frexp': [1], 'sincos': [1, 2], 'strtod': [1], 'strtol': [1]}
MAXPATH = 12


def elem(t):
    """element type of an array type, else the type."""
    while t and t.startswith('['):
        t = split_array(t)[1]
    return t


class FnInfo:
    def __init__(self, mod, fn, sums):
        self.mod, self.fn, self.sums = mod, fn, sums
        self.pt = {}                 # value id -> set of locs
        self.cont = {}               # loc -> set of locs stored there
        self.types = {}              # ('arg', k, path) -> ditype of the object there
        self.mods = {}               # loc -> witness instruction
        self.ret = set()
        for k in range(len(fn.args)):
            t = fn.dity[k + 1] if k + 1 < len(fn.dity) else '?'
            byval = fn.args[k].get('byval')
            self.types[('arg', k, ())] = elem(t if byval else (t[1:] if t.startswith('*') else t))

    def pts(self, o):
        if not o:
            return set()
        if o[0] == 'v':
            return self.pt.get(o[1], set())
        if o[0] == 'a':
            if not self.fn.args[o[1]]['ty'].startswith('ptr'):
                return set()
            if self.fn.args[o[1]].get('byval'):
                return {('loc', 'byval%d' % o[1])}
            return {('arg', o[1], ())}
        if o[0] == 'g':
            return {('glob', o[1])}
        if o[0] == 'ce':
            return set().union(*[self.pts(x) for x in o[1].get('ops', [])] or [set()])
        return set()

    def field(self, loc, off):
        """the location of the field at byte offset `off` of the object `loc`."""
        if loc[0] != 'arg':
            return loc
        path, t = list(loc[2]), self.types.get(loc, '?')
        while True:
            t = elem(t)
            if not t or not t.startswith('%'):
                break
            sz = self.mod.tysize(t)
            if sz:
                off %= sz
            f = self.mod.fields(t[1:], off)
            if f is None:
                break
            if elem(f[1]).startswith('%') or off - f[2] or True:
                path.append(f[0]); t = f[1]; off = f[2]
            if not elem(t).startswith('%'):
                break
            if off == 0 and self.stop:
                break
        n = ('arg', loc[1], tuple(path[:MAXPATH]))
        self.types.setdefault(n, elem(t))
        return n

    stop = False

    def step(self, loc, d):
        """loc moved by the GEP instruction d."""
        if loc[0] != 'arg':
            return loc
        g = d.gep
        t = self.types.get(loc, '?')
        if g is None or 'co' not in g:
            return loc
        co = g['co']
        if not t.startswith('%'):
            return loc
        sz = self.mod.tysize(t) or 0
        off = co % sz if sz else co
        path = list(loc[2])
        # leave array strides out: variable offsets select elements
        strides = [s for _, s in g.get('vo', [])]
        if off == 0 and (not strides or all(sz and s % sz == 0 for s in strides)):
            # could be the object itself or its first field: keep the object, refined at use
            return loc
        f = self.mod.fields(t[1:], off)
        if f is None:
            return loc
        while True:
            path.append(f[0]); ft = elem(f[1])
            if not ft.startswith('%'):
                break
            fs = self.mod.tysize(ft) or 1
            r = f[2] % fs
            if r == 0:
                break
            f = self.mod.fields(ft[1:], r)
            if f is None:
                break
        n = ('arg', loc[1], tuple(path[:MAXPATH]))
        self.types.setdefault(n, ft)
        return n

    def cell(self, loc, size):
        """the location accessed by a scalar load/store at loc: first leaf fields of a struct object."""
        while loc[0] == 'arg':
            t = self.types.get(loc, '?')
            if not t.startswith('%') or (self.mod.tysize(t) == size and False):
                break
            f = self.mod.fields(t[1:], 0)
            if f is None:
                break
            n = ('arg', loc[1], (loc[2] + (f[0],))[:MAXPATH])
            self.types.setdefault(n, elem(f[1]))
            if n == loc:
                break
            loc = n
        return loc

    def deref(self, loc):
        """what a pointer stored at loc points at."""
        out = set(self.cont.get(loc, ()))
        if loc[0] == 'arg' and len(loc[2]) < MAXPATH:
            t = self.types.get(loc, '?')
            n = ('arg', loc[1], loc[2] + ('*',))
            self.types.setdefault(n, elem(t[1:]) if t.startswith('*') else '?')
            out.add(n)
        elif loc[0] == 'glob':
            out.add(loc)
        return out

    def put(self, key, s):
        o = self.pt.setdefault(key, set())
        if not s <= o:
            o |= s
            self.changed = True

    def store_to(self, loc, s):
        o = self.cont.setdefault(loc, set())
        if not s <= o:
            o |= s
            self.changed = True

    def mod_at(self, loc, i):
        if loc not in self.mods:
            self.mods[loc] = i
            self.changed = True

    def substitute(self, loc, i):
        """callee location -> caller locations."""
        if loc[0] == 'glob':
            return {loc}
        if loc[0] != 'arg' or loc[1] >= len(i.ops):
            return set()
        cur = self.pts(i.ops[loc[1]])
        # the callee's view of the object may be a first field of ours or the reverse: names settle it
        for st in loc[2]:
            nxt = set()
            for c in cur:
                if c[0] == 'arg':
                    if st == '*':
                        c2 = self.cell(c, 8)
                        nxt |= self.deref(c2)
                    else:
                        t = self.types.get(c, '?')
                        c2 = c
                        for _ in range(4):
                            d = self.mod.ditypes.get(t[1:]) if t.startswith('%') else None
                            if d is None:
                                break
                            m = [x for x in d['members'] if x[0] == st]
                            if m:
                                c2 = ('arg', c2[1], (c2[2] + (st,))[:MAXPATH])
                                self.types.setdefault(c2, elem(m[0][3]))
                                break
                            f = d['members'][0]
                            c2 = ('arg', c2[1], (c2[2] + (f[0],))[:MAXPATH]); t = elem(f[3])
                            self.types.setdefault(c2, t)
                        nxt.add(c2)
                elif st == '*':
                    nxt |= self.deref(c)
                else:
                    nxt.add(c)
            cur = nxt
        return cur

    def solve(self):
        fn = self.fn
        self.changed = True
        n = 0
        while self.changed and n < 60:
            self.changed = False
            n += 1
            for b in fn.rpo:
                for i in fn.blocks[b]:
                    self.inst(i)
        return self

    def inst(self, i):
        op = i.op
        if op == 'alloca':
            self.put(i.id, {('loc', i.id)})
        elif op == 'getelementptr':
            self.put(i.id, {self.step(l, i) for l in self.pts(i.ops[0])})
        elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast', 'select', 'extractvalue'):
            self.put(i.id, set().union(*[self.pts(x) for x in i.ops] or [set()]))
        elif op == 'phi':
            self.put(i.id, set().union(*[self.pts(x) for x, _ in i.incoming] or [set()]))
        elif op == 'load':
            if i.ty and i.ty.startswith('ptr'):
                s = set()
                for l in self.pts(i.ops[0]):
                    s |= self.deref(self.cell(l, 8))
                self.put(i.id, s)
        elif op == 'store':
            v = self.pts(i.ops[0])
            for l in self.pts(i.ops[1]):
                c = self.cell(l, 0)
                if v and i.sty and i.sty.startswith('ptr'):
                    self.store_to(c, v)
                self.mod_at(c, i)
        elif op == 'ret':
            if i.ops:
                self.ret |= self.pts(i.ops[0])
        elif op == 'call':
            c = i.callee
            isptr = bool(i.ty) and i.ty.startswith('ptr')
            if c is None:
                return
            if c in FRESH:
                self.put(i.id, {('loc', i.id)})
                return
            base = c
            if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
                base = 'memcpy'
            elif c.startswith('llvm.memset'):
                base = 'memset'
            if base in WRITES:
                for k in WRITES[base]:
                    if k < len(i.ops):
                        for l in self.pts(i.ops[k]):
                            self.mod_at(self.whole(l, i, base), i)
                if base == 'memcpy':
                    src = self.pts(i.ops[1])
                    for l in self.pts(i.ops[0]):
                        for s in src:
                            if l[0] != 'arg' or s[0] != 'arg':
                                self.store_to(l, self.deref(s) if s[0] != 'arg' else {s})
                if isptr:
                    self.put(i.id, self.pts(i.ops[0]))
                return
            if 'scanf' in c:
                for o in i.ops[2:]:
                    for l in self.pts(o):
                        self.mod_at(self.cell(l, 0), i)
                return
            s = self.sums.get(c)
            if s is None:
                return
            for l in list(s.mods):
                for x in self.substitute(l, i):
                    self.mod_at(x if s.types.get(l, '?').startswith('%') else self.cell(x, 0), i)
            for l, vs in list(s.cont.items()):
                if l[0] == 'arg':
                    v = set()
                    for y in vs:
                        v |= self.substitute(y, i) if y[0] != 'loc' else {('loc', 'c%d' % i.id)}
                    for x in self.substitute(l, i):
                        self.store_to(x, v)
            if isptr:
                r = set()
                for l in s.ret:
                    r |= self.substitute(l, i) if l[0] != 'loc' else {('loc', i.id)}
                self.put(i.id, r)

    def whole(self, l, i, base):
        return l if base in ('memcpy', 'memset') else self.cell(l, 0)


def summaries(mod):
    fns = [f for f in mod.funcs.values() if not f.decl]
    sums = {f.name: FnInfo(mod, f, {}) for f in fns}
    for s in sums.values():
        s.sums = sums
    for _ in range(6):
        before = {n: (len(s.mods), len(s.ret)) for n, s in sums.items()}
        for s in sums.values():
            s.solve()
        if before == {n: (len(s.mods), len(s.ret)) for n, s in sums.items()}:
            break
    return sums


def text(fn, loc):
    n = fn.argname.get(loc[1]) or fn.args[loc[1]]['name'] or 'arg%d' % loc[1]
    s = n
    for p in loc[2]:
        s += '->*' if p == '*' else '.' + p
    return s


if __name__ == '__main__':
    import ir, sys
    m = ir.load()
    S = summaries(m)
    for n, s in sorted(S.items()):
        if s.fn.helper and not s.fn.rec:
            continue
        print(n + ':', ', '.join(sorted({text(s.fn, l) for l in s.mods if l[0] == 'arg'} | {'GLOBAL ' + l[1] for l in s.mods if l[0] == 'glob'})))
