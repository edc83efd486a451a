"""Build and load the resolved program: /repo's C sources -> LLVM IR (helpers inlined) -> JSON.

Every run compiles /repo's current tree.  Functions named in keep.txt are the library's own
functions; any other function is a helper and is analysed inlined in its callers.
"""
import threading, fcntl, hashlib, json, os, subprocess, sys, tempfile, shutil
from functools import lru_cache

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OPTV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class AnalysisError(Exception):
    """The analysis cannot run (anchor vanished, source does not compile): exit 2."""


def _irdump():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'irdump')
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
            cx = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True).stdout
            ld = subprocess.run(['llvm-config-18', '--ldflags'], capture_output=True, text=True).stdout
            cmd = ['clang++-18', '-O1'] + cx.replace('-fno-exceptions', '').split() + \
                  ['-fno-rtti', src, '-o', exe + '.tmp'] + ld.split() + ['-lLLVM-18']
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError('cannot build irdump: ' + r.stderr[-2000:])
            os.rename(exe + '.tmp', exe)
    return exe


# the repository's own compiler (gcc 13) accepts these with a warning
LENIENT = ['-Wno-error=implicit-function-declaration', '-Wno-error=implicit-int', '-Wno-error=int-conversion',
           '-Wno-error=incompatible-function-pointer-types', '-Wno-error=return-type']


def c_sources():
    d = os.path.join(REPO, 'liboptv', 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.c'))


def keep_default():
    with open(os.path.join(VERIF, 'lib', 'keep.txt')) as f:
        return f.read().split()


PIPE_BASIC = 'function(sroa,early-cse<memssa>,jump-threading,adce)'
# loops over small constant tables unrolled first (a list of streams closed in a loop, a list of fields read in a loop)
UNROLLED = dict(post='function(sroa,loop-simplify,lcssa,loop(loop-unroll-full),sroa,early-cse<memssa>,jump-threading,adce)',
                flags=('-O2',), cl=('-unroll-threshold=400', '-unroll-full-max-count=64'))

_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='optvsa.')
        import atexit
        atexit.register(shutil.rmtree, _work, True)
    return _work


@lru_cache(None)
def bitcode(extra=None, flags=()):
    """extra: a witness source (path) compiled along with the library; flags: further compiler flags."""
    w = workdir()
    procs, outs = [], []
    for s in c_sources() + ([extra] if extra else []):
        o = os.path.join(w, (hashlib.sha1(repr((flags, s)).encode()).hexdigest()[:8] + '.' if flags else '') +
                         os.path.basename(s)[:-2] + '.bc')
        outs.append(o)
        procs.append((s, subprocess.Popen(
            ['clang-18', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g', '-w',
             '-ffp-contract=off'] + LENIENT + ['-I' + os.path.join(REPO, 'liboptv', 'include')] + list(flags) +
            ['-emit-llvm', '-c', s, '-o', o],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        t = p.communicate()[0]
        if p.returncode:
            raise AnalysisError('cannot compile %s: %s' % (s, t[-1500:]))
    return tuple(outs)


_lock = threading.Lock()


@lru_cache(None)
def load(pre='function(sroa)', post=PIPE_BASIC, keep=None, inline=(), extra=None, flags=(), cl=(), strip=False, io=False, peel=0, again='', split=False, limit=600):
    """keep: tuple of function names to keep (default: keep.txt minus `inline`)."""
    with _lock:
        exe = _irdump()
        w = workdir()
        bc = list(bitcode(extra, flags))
    k = list(keep) if keep is not None else [x for x in keep_default() if x not in inline]
    h = hashlib.sha1(repr((pre, post, k, extra, flags, cl, strip, io, peel, again, split)).encode()).hexdigest()[:10]
    kf = os.path.join(w, h + '.keep')
    with open(kf, 'w') as f:
        f.write('\n'.join(k) + '\n')
    out = os.path.join(w, h + '.json')
    try:
        r = subprocess.run([exe] + bc + ['-o', out, '-p', pre, '-keep', kf, '-p2', post] +
                           (['-strip'] if strip else []) + (['-io'] if io else []) + (['-split'] if split else []) + (['-peel', str(peel), '-p3', again] if peel else []) + [x for c in cl for x in ('-cl', c)],
                           capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise AnalysisError('no decision within the time given (loading)')
    if r.returncode:
        raise AnalysisError('irdump: ' + r.stderr[-1500:])
    with open(out) as f:
        j = json.load(f)
    return Module(j)


class Inst:
    __slots__ = ('id', 'op', 'ty', 'loc', 'ops', 'incoming', 'callee', 'icallee', 'pred', 'gep', 'aty', 'asize',
                 'sty', 'cases', 'default', 'succ', 'nsw', 'frm', 'byval', 'bb', 'idx', 'fn')

    def __init__(self, d, bb, idx, fn):
        self.id = d['id']; self.op = d['op']; self.ty = d.get('ty'); self.loc = d.get('loc')
        self.ops = [_t(o) for o in d.get('ops', [])]
        self.incoming = [(_t(o), b) for o, b in d.get('in', [])]
        self.callee = d.get('callee'); self.icallee = d.get('icallee'); self.pred = d.get('pred')
        self.gep = d.get('gep'); self.aty = d.get('aty'); self.asize = d.get('asize'); self.sty = d.get('sty')
        self.cases = d.get('cases'); self.default = d.get('default'); self.succ = d.get('succ') or []
        self.nsw = d.get('nsw'); self.frm = d.get('from'); self.byval = d.get('byval') or []
        self.bb = bb; self.idx = idx; self.fn = fn

    @property
    def line(self):
        return self.loc[0][1] if self.loc else 0

    def where(self):
        """file:line (function), outermost named function last."""
        if not self.loc:
            return '%s (%s)' % (self.fn.file, self.fn.name)
        f, l, n = self.loc[0]
        s = '%s:%d (%s)' % (rel(f), l, n)
        for f2, l2, n2 in self.loc[1:]:
            s += ' <- %s:%d (%s)' % (rel(f2), l2, n2)
        return s

    def __repr__(self):
        return '<%%%d %s %s>' % (self.id, self.op, self.callee or '')


def _t(o):
    if isinstance(o, list):
        return tuple(_t(x) if isinstance(x, (list, dict)) else x for x in o)
    if isinstance(o, dict):
        return CE(o)
    return o


class CE(dict):
    """constant expression payload (hashable by identity of content)."""
    def __hash__(self):
        return hash(json.dumps(self, sort_keys=True, default=str))


def rel(f):
    if not f:
        return '?'
    for p in (REPO + '/', '/repo/'):
        if f.startswith(p):
            return f[len(p):]
    return f


class Func:
    def __init__(self, name, d, mod):
        self.name = name; self.mod = mod; self.decl = d['decl']; self.helper = d.get('helper'); self.rec = d.get('rec')
        self.ret = d['ret']; self.args = d['args']; self.file = rel(d.get('file')); self.linen = d.get('line', 0)
        self.dity = d.get('dity', []); self.internal = d['internal']
        self.raw_dv = d.get('dv', [])
        self.blocks = []; self.insts = {}
        for b, bl in enumerate(d.get('blocks', [])):
            l = []
            for k, i in enumerate(bl):
                x = Inst(i, b, k, self); l.append(x); self.insts[x.id] = x
            self.blocks.append(l)
        self.loops = d.get('loops', [])
        if not self.decl:
            self._cfg()
        self.argname = {}
        for v in self.raw_dv:
            if v[2] and not v[7]:
                self.argname.setdefault(v[2] - 1, v[1])

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [list(dict.fromkeys(b[-1].succ)) for b in self.blocks]
        self.pred = [[] for _ in range(n)]
        for b, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(b)
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        self.rpo = order[::-1]
        self.rpoi = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    a, c = new, p
                    while a != c:
                        while self.rpoi[a] > self.rpoi[c]:
                            a = idom[a]
                        while self.rpoi[c] > self.rpoi[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new; ch = True
        self.idom = idom
        self._uses = None
        inl = {}
        for L in self.loops:
            for b in L['blocks']:
                inl.setdefault(b, []).append(L)
        self.loops_of = inl

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.insts.values():
                for o in i.ops:
                    if o and o[0] in ('v', 'a'):
                        u.setdefault(o, []).append(i)
                for o, _ in i.incoming:
                    if o[0] in ('v', 'a'):
                        u.setdefault(o, []).append(i)
                if i.icallee and i.icallee[0] == 'v':
                    u.setdefault(('v', i.icallee[1]), []).append(i)
            self._uses = u
        return self._uses

    def all(self, op=None, callee=None):
        for b in self.rpo:
            for i in self.blocks[b]:
                if op and i.op != op:
                    continue
                if callee and i.callee != callee:
                    continue
                yield i

    def calls(self, *names):
        for i in self.all('call'):
            if not names or i.callee in names:
                yield i

    def argno(self, name):
        for k, n in self.argname.items():
            if n == name:
                return k
        raise AnalysisError('%s has no parameter %s' % (self.name, name))


class Module:
    def __init__(self, j):
        self.structs = j['structs']; self.ditypes = j['ditypes']; self.globals = j['globals']
        self.funcs = {}
        for n, d in j['funcs'].items():
            self.funcs[n] = Func(n, d, self)

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None or f.decl:
            raise AnalysisError('anchor vanished: function %s is not defined in the library' % name)
        return f

    def api(self):
        """functions to analyse on their own: everything defined that was not inlined as a helper."""
        return [f for n, f in sorted(self.funcs.items()) if not f.decl and not (f.helper and not f.rec)]

    def string(self, op):
        """the string constant an operand points at, or None."""
        if op and op[0] == 'g':
            g = self.globals.get(op[1])
            if g and g.get('const'):
                if 'str' in g:
                    return g['str']
                if g.get('zero'):
                    return ''
        return None

    # ---------------- type layout -----------------
    def fields(self, struct, off):
        """name path of byte offset `off` in the named struct: (path, ditype, remaining offset)."""
        d = self.ditypes.get(struct)
        if d is None:
            return None
        for m, o, sz, t in d['members']:
            if o <= off < o + max(sz, 1):
                return m, t, off - o, sz
        return None

    def tysize(self, t):
        if t.startswith('*'):
            return 8
        if t.startswith('%'):
            d = self.ditypes.get(t[1:])
            return d['size'] if d else None
        if t.startswith('['):
            dims, el = split_array(t)
            s = self.tysize(el)
            if s is None:
                return None
            for x in dims:
                s *= x
            return s
        return {'int': 4, 'double': 8, 'float': 4, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'long': 8,
                'unsigned int': 4, 'short': 2, 'unsigned long': 8, 'unsigned short': 2, 'long long': 8}.get(t)

    def leaves(self, t, prefix=''):
        """all scalar leaves of a type: (path, offset, ditype)."""
        out = []

        def go(t, p, off):
            if t.startswith('%'):
                d = self.ditypes.get(t[1:])
                if d:
                    for m, o, sz, mt in d['members']:
                        go(mt, p + '.' + m if p else m, off + o)
                    return
            if t.startswith('['):
                dims, el = split_array(t)
                es = self.tysize(el) or 1
                n = 1
                for x in dims:
                    n *= x
                for k in range(n):
                    idx, r = [], k
                    for x in reversed(dims):
                        idx.append(r % x); r //= x
                    go(el, p + ''.join('[%d]' % x for x in reversed(idx)), off + k * es)
                return
            out.append((p, off, t))
        go(t, prefix, 0)
        return out


def split_array(t):
    dims = []
    while t.startswith('['):
        e = t.index(']')
        dims.append(int(t[1:e])); t = t[e + 1:]
    return dims, t
