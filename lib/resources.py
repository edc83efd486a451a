"""Resource typestate (FILE* streams and heap blocks): rules for C02 and C03."""
from engine import *
from ir import UNROLLED, load, AnalysisError

ALLOC = {'malloc', 'calloc'}
STREAM_USE = {'__isoc99_fscanf': 0, 'fscanf': 0, 'fprintf': 0, 'feof': 0, 'fclose': 0, 'fgets': 2, 'fread': 3,
              'fwrite': 3, 'fputs': 1, 'fputc': 1, 'fgetc': 0, 'rewind': 0, 'fseek': 0, 'ftell': 0, 'ferror': 0,
              'fflush': 0, '__isoc99_vfscanf': 0, 'vfprintf': 0, 'ungetc': 1, 'getc': 0, 'putc': 1, 'setvbuf': 0}


class ResClient(Client):
    once = True
    keyvars = True

    def __init__(self, summaries):
        self.sum = summaries
        self.exits = []          # (ret class, frozenset freed args, state)
        self.escapes = set()
        self.stats = dict(opens=set(), allocs=set(), closes=set(), frees=set(), exits=set(), uses=set())
        self.freed_paths = []    # per exit: frozenset of freed field paths
        self.stored_paths = set()  # field paths of arg/returned objects that receive fresh heap

    # ---- helpers
    def acquire(self, e, st, i, kind, nul):
        rid = ('r', i.id, kind)
        old = st.res.get(rid)
        if old == 'live' and st.nul.get(rid, 2) != 1:
            e.report('leak', i, st, '%s acquired here is lost when the same statement acquires another one' % NAME[kind])
        # stale references
        for k, v in list(st.env.items()):
            if v[0] == 'p' and v[1] == rid:
                st.env[k] = TOP
        for k, v in list(st.mem.items()):
            if v[0] == 'p' and v[1] == rid:
                st.mem[k] = ('p', ('e', k[0]), 0)
        for k in [k for k in st.mem if k[0] == rid]:
            del st.mem[k]
        st.res[rid] = 'live'
        st.nul[rid] = nul
        st.env[i.id] = ('p', rid, 0)
        return rid

    def clobbered(self, e, st, root):
        clob_hook(st, root)

    def on_null(self, e, st, base):
        st.res.pop(base, None)

    def release(self, e, st, i, v, kind, how):
        self.stats['closes' if kind == 'file' else 'frees'].add(i.where())
        if v[0] == 'n':
            if kind == 'file':
                e.report('null-stream', i, st, '%s of a NULL stream' % how)
            return
        if v[0] != 'p':
            for r in list(st.res):
                if st.res[r] == 'live' and (r[0] != 'r' or r[2] == kind):
                    st.res[r] = 'esc'
            return
        base = v[1]
        if base[0] == 's':
            e.report('bad-free', i, st, '%s of a local variable\'s storage' % how)
            return
        if v[2] not in (0, None) and base[0] == 'r':
            e.report('bad-free', i, st, '%s of a pointer into the middle of a block' % how)
            return
        if base[0] in ('e', 'f', 'a'):
            st.flags = st.flags | {('freed', pathof(base))}
        if base[0] == 'e':
            if e.root(base)[0] in ('s', 'r') or base in st.res:
                st.res[base] = 'closed'
            return
        cur = st.res.get(base)
        if base[0] == 'r' and base[2] != kind:
            e.report('bad-free', i, st, '%s applied to a %s' % (how, NAME[base[2]]))
            return
        if kind == 'file' and st.nul.get(base, 2) == 2 and base[0] == 'r':
            e.report('null-stream', i, st, '%s of a stream that may be NULL (the open was not checked)' % how)
        if cur == 'closed':
            e.report('double-release', i, st, '%s of a %s that is already released on this path' % (how, NAME[kind]))
            return
        # a container freed while it still owns blocks
        if kind == 'heap':
            for r, s in list(st.res.items()):
                if s == ('own', base):
                    e.report('leak', i, st, 'block is freed while it holds the only pointer to another block '
                             'allocated at %s' % self.site(e, r), )
                    st.res[r] = 'esc'
                if r == ('e', base) and s == 'live':
                    e.report('leak', i, st, 'array is freed while its elements still own allocated blocks')
        st.res[base] = 'closed'

    def site(self, e, r):
        if r[0] == 'r' and r[1] in e.fn.insts:
            return e.fn.insts[r[1]].where()
        return 'caller-owned memory'

    def deref(self, e, st, i, base):
        b = base
        while True:
            if st.res.get(b) == 'closed' and b[0] in ('r', 'f', 'a'):
                e.report('use-after-release', i, st, 'memory released earlier on this path is accessed')
                return
            if b[0] == 'f':
                b = b[1]
            else:
                break

    def store(self, e, st, i, v, p):
        if p[0] == 'p' and p[2] is None:
            st.res.pop(('e', p[1]), None) if st.res.get(('e', p[1])) == 'closed' else None
        if v[0] != 'p':
            return
        vb = v[1]
        if vb[0] == 'a' and p[0] == 'p' and p[1][0] != 's':
            self.escapes.add(vb[1])
        if vb[0] == 'f' and p[0] == 'p' and p[1][0] != 's':
            pass
        if vb[0] != 'r' or st.res.get(vb) not in ('live',) and not isinstance(st.res.get(vb), tuple):
            return
        if p[0] != 'p':
            st.res[vb] = 'esc'
            return
        pb = p[1]
        if pb[0] == 's':
            if p[2] is None:
                st.res[vb] = 'esc'
                st.res[('e', pb)] = 'live'
            return
        if pb[0] == 'r':
            if p[2] is None:
                st.res[vb] = 'esc'
                st.res[('e', pb)] = 'live'
            else:
                st.res[vb] = ('own', pb)
            self.stored_paths.add((pb, p[2]))
            return
        if pb[0] == 'e':
            st.res[vb] = 'esc'
            self.stored_paths.add((pb, p[2]))
            return
        self.stored_paths.add((pb, p[2]))
        st.res[vb] = 'esc'

    def call(self, e, st, i):
        c = i.callee
        args = [e.val(st, o) for o in i.ops]
        if c in ('fopen', 'fdopen', 'freopen', 'tmpfile', 'fopen64'):
            self.stats['opens'].add(i.where())
            self.acquire(e, st, i, 'file', 2)
            return [st]
        if c in ALLOC:
            self.stats['allocs'].add(i.where())
            self.acquire(e, st, i, 'heap', 2)
            return [st]
        if c == 'realloc':
            self.stats['allocs'].add(i.where())
            v = args[0]
            if v[0] == 'p':
                if st.res.get(v[1]) == 'closed':
                    e.report('use-after-release', i, st, 'realloc of a released block')
                if v[1][0] in ('r', 'f', 'a'):
                    own = st.res.get(v[1])
                    rid = ('r', i.id, 'heap')
                    if v[1] == rid:
                        # grown in place in a loop: the same resource moves on
                        st.env[i.id] = v
                        return [st]
                    st.res[v[1]] = 'closed'
                    st.res.pop(v[1], None)
                    for k, x in list(st.env.items()):
                        if x[0] == 'p' and x[1] == v[1]:
                            st.env[k] = TOP
                    self.acquire(e, st, i, 'heap', 0)
                    return [st]
            self.acquire(e, st, i, 'heap', 0)
            return [st]
        if c == 'free':
            self.release(e, st, i, args[0], 'heap', 'free()')
            return [st]
        if c in STREAM_USE:
            k = STREAM_USE[c]
            v = args[k]
            self.stats['uses'].add(i.where())
            if i.ops[k] == ('g', 'stderr') or self.is_std(e, i.ops[k]):
                pass
            elif c == 'fclose':
                self.release(e, st, i, v, 'file', 'fclose()')
            else:
                if v[0] == 'n' or (v[0] == 'p' and v[1][0] == 'r' and v[1][2] == 'file' and e.isnull(st, v) == 2):
                    e.report('null-stream', i, st, '%s() on a stream that may be NULL (the open was not checked)' % c)
                if v[0] == 'p' and st.res.get(v[1]) == 'closed':
                    e.report('use-after-release', i, st, '%s() on a stream that is already closed' % c)
                if v[0] == 'p' and v[1][0] == 'r' and v[1][2] != 'file':
                    e.report('bad-free', i, st, '%s() on something that is not a stream' % c)
            for p in args[k + 1:] if c in ('__isoc99_fscanf', 'fscanf') else []:
                if p[0] == 'p':
                    self.deref(e, st, i, p[1])
                    if p[2] is not None:
                        for kk in list(st.mem):
                            if kk[0] == p[1] and kk[1] == p[2]:
                                del st.mem[kk]
                        for sz in ('i32', 'double'):
                            st.mem[(p[1], p[2], sz)] = ty_top(sz)
            if i.ty and i.ty != 'void':
                st.env[i.id] = ty_top(i.ty)
            return [st]
        s = self.sum.get(c)
        if s is None:
            for k, v in enumerate(args):
                if v[0] == 'p':
                    self.deref(e, st, i, v[1])
            ext = c is not None and e.fn.mod.funcs.get(c) is not None and e.fn.mod.funcs[c].decl
            st = e.default_call(st, i, clobber=True)
            return [st]
        # project function with a summary
        for k, v in enumerate(args):
            if v[0] == 'p':
                self.deref(e, st, i, v[1])
            elif v[0] == 'n' and False:
                pass
        out = []
        for case in s['cases']:
            ns = st.copy()
            rc, freed = case
            for path in s.get('freed_paths', ()):
                if path[0] == 'a' and len(path) > 2 and path[1] < len(args) and args[path[1]][0] == 'p':
                    b = args[path[1]][1]
                    if len(path) == 3 and path[2] == '[]' and ns.res.get(('e', b)) == 'live':
                        ns.res[('e', b)] = 'closed'
                    off = (args[path[1]][2] or 0) + path[2] if path[2] != '[]' else None
                    if off is not None and len(path) in (3, 4):     # a field of the argument released before the call
                        v = ns.mem.get((b, off, 'ptr'))
                        fb = ('f', b, off, ns.clob.get(e.root(b), -1))
                        if v is not None and v[0] == 'p':
                            fb = v[1]
                        if len(path) == 4:
                            fb = ('e', fb) if path[3] == '[]' else None
                        if fb is not None and (v is None or v[0] == 'p') and ns.res.get(fb) == 'closed':
                            e.report('double-release', i, st, '%s() releases a block that is already released on this path' % c)
                    if len(path) == 3 and path[2] != '[]':
                        v = ns.mem.get((b, (args[path[1]][2] or 0) + path[2], 'ptr'))
                        if v is not None and v[0] == 'p' and v[1][0] == 'r' and isinstance(ns.res.get(v[1]), tuple):
                            ns.res[v[1]] = 'closed'
            for k in freed:
                if k < len(args):
                    self.release(e, ns, i, args[k], 'heap', '%s()' % c)
                    if args[k][0] == 'p':
                        for r, x in list(ns.res.items()):
                            if x == ('own', args[k][1]):
                                ns.res[r] = 'closed'
            for k in s['escapes']:
                if k < len(args) and args[k][0] == 'p' and args[k][1][0] == 'r' and \
                        ns.res.get(args[k][1]) == 'live':
                    ns.res[args[k][1]] = 'esc'
            fr = [args[k] for k in freed if k < len(args)]
            e.clobber(ns, i, [v for v in args if v not in fr])
            if rc == 'fresh':
                self.stats['allocs'].add(i.where())
                self.acquire(e, ns, i, 'heap', 0)
            elif rc == 'null':
                ns.env[i.id] = NULL
            elif isinstance(rc, tuple) and rc[0] == 'i':
                ns.env[i.id] = rc
            elif isinstance(rc, tuple) and rc[0] == 'arg':
                ns.env[i.id] = args[rc[1]]
            elif i.ty and i.ty != 'void':
                ns.env[i.id] = ('p', ('c', i.id), 0) if i.ty == 'ptr' else ty_top(i.ty)
                ns.nul.pop(('c', i.id), None)
            out.append(ns)
        return out

    def is_std(self, e, o):
        if o[0] == 'v':
            d = e.fn.insts.get(o[1])
            return d is not None and d.op == 'load' and d.ops[0][0] == 'g' and d.ops[0][1] in ('stderr', 'stdout', 'stdin')
        return False

    def ret(self, e, st, i, v):
        self.stats['exits'].add((e.fn.name, i.id))
        rc = 'void'
        retb = None
        if v is not None:
            if v[0] == 'n':
                rc = 'null'
            elif v[0] == 'i':
                rc = v
            elif v[0] == 'p':
                retb = v[1]
                if retb[0] == 'r' and st.res.get(retb) in ('live', 'esc'):
                    rc = 'fresh'
                elif retb[0] == 'a':
                    rc = ('arg', retb[1])
                else:
                    rc = 'top'
            else:
                rc = 'top'
        if retb is not None and st.res.get(retb) == 'closed' and retb[0] == 'r':
            e.report('use-after-release', i, st, 'a released block is returned', site=self.site(e, retb))
        for r, s in st.res.items():
            if r == retb:
                continue
            if s == 'live' and r[0] == 'r':
                if st.nul.get(r, 2) == 1:
                    continue
                e.report('leak', e.fn.insts[r[1]], st, '%s acquired here is neither released nor handed over on a '
                         'path that returns at %s' % (NAME[r[2]], self.last(e, st, i)))
            elif s == 'live' and r[0] == 'e' and r[1][0] == 's':
                e.report('leak', i, st, 'elements of a local pointer array are not released on a returning path')
            elif isinstance(s, tuple) and s[0] == 'own' and s[1][0] == 's':
                pass
        # dangling pointers left in caller-visible memory
        for k, x in st.mem.items():
            if k[0][0] in ('a', 'f') and x[0] == 'p' and x[1][0] == 'r' and st.res.get(x[1]) == 'closed':
                e.report('use-after-release', i, st, 'a released block stays reachable from the caller\'s structure',
                         site=self.site(e, x[1]))
        freed = frozenset(b[1] for b, s in st.res.items() if b[0] == 'a' and s == 'closed')
        self.exits.append((rc, freed))
        paths = {x[1] for x in st.flags if x[0] == 'freed'}
        for b, n in st.nul.items():
            if n == 1 and b[0] == 'f':      # nothing there to release on this path
                paths |= {pathof(b), pathof(b) + ('[]',)}
        self.freed_paths.append(frozenset(paths))
        self.retbase = retb

    def last(self, e, st, i):
        return i.where()


def clob_hook(st, root):
    for b in list(st.res):
        if b[0] in ('f', 'e') and Engine.root(None, b) == root and (
                root[0] not in ('s', 'r') or st.res[b] == 'closed' and root[0] == 'r'):
            del st.res[b]


def pathof(b):
    """caller-visible path of a symbolic base: list of byte offsets from an argument."""
    if b[0] == 'a':
        return ('a', b[1])
    if b[0] == 'f':
        return pathof(b[1]) + (b[2],)
    if b[0] == 'e':
        return pathof(b[1]) + ('[]',)
    if b[0] == 'r':
        return ('r',)
    return (b[0],)


NAME = {'file': 'stream', 'heap': 'heap block'}


def order(mod):
    """callees before callers."""
    done, out = set(), []

    def go(f, stack):
        if f.name in done or f.name in stack:
            return
        for i in f.calls():
            g = mod.funcs.get(i.callee) if i.callee else None
            if g is not None and not g.decl:
                go(g, stack | {f.name})
        if f.name not in done:
            done.add(f.name); out.append(f)
    for f in mod.api():
        go(f, frozenset())
    return out


def simplify_cases(exits):
    cases = set()
    for rc, freed in exits:
        cases.add((rc, freed))
    # join integer classes with the same freed set to a few
    by = {}
    for rc, freed in cases:
        by.setdefault((freed, rc[0] if isinstance(rc, tuple) else rc), []).append(rc)
    out = set()
    for (freed, k), l in by.items():
        if k == 'i':
            pts = sorted(set(l))
            if len(pts) > 4:
                lo = min(p[1] for p in pts); hi = max(p[2] for p in pts)
                out.add((('i', lo, hi, all(p[3] for p in pts)), freed))
            else:
                for p in pts:
                    out.add((p, freed))
        else:
            for rc in l:
                out.add((rc, freed))
    return out


_cache = {}


def analyse():
    if 'r' in _cache:
        return _cache['r']
    mod = load(**UNROLLED)
    summ, viol, stats, clients = {}, [], {}, {}
    for f in order(mod):
        c = ResClient(summ)
        e = Engine(f, c)
        import os,time
        t0=time.time()
        e.run()
        if os.environ.get('DBG'): print(f.name,e.steps,round(time.time()-t0,2),flush=True)
        viol += list(e.viol.values())
        clients[f.name] = c
        summ[f.name] = dict(cases=simplify_cases(c.exits), escapes=set(c.escapes),
                            freed_paths=frozenset.intersection(*c.freed_paths) if c.freed_paths else frozenset())
        if f.rec or not c.exits:
            summ.pop(f.name)
        for k, s in c.stats.items():
            stats.setdefault(k, set()).update(s)
    _cache['r'] = (mod, summ, viol, stats, clients)
    return _cache['r']


if __name__ == '__main__':
    import time
    t = time.time()
    mod, summ, viol, stats, cl = analyse()
    print(time.time() - t, {k: len(v) for k, v in stats.items()})
    for v in viol:
        print(v)
    for n in ('free_frame', 'fb_base_free', 'tr_free', 'free_control_par', 'read_control_par', 'read_targets', 'read_man_ori_fix', 'tr_new_legacy', 'orient'):
        print(n, summ.get(n), set(cl[n].freed_paths), cl[n].stored_paths)
