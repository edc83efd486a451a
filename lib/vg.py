"""Value graph with algebraic normal form.

A witness function (lib/wit/*.c) composes library functions and stores to its out-parameters the
quantities the property says are zero (`zero[k]`), true (`truth[k]`), or assumed true (`need[k]`).
The library is inlined into it, constant-count loops are unrolled and memory is promoted to SSA by
the compiler's own passes; here every SSA value gets a canonical gated expression: a decision
diagram over canonical branch conditions whose leaves are (Laurent) polynomials over atoms
(parameters, loads, elementary functions), and obligations are decided by rewriting to normal form
with  sqrt(p)^2 = p,  sin^2 = 1 - cos^2,  |p|^2 = p^2,  p * (1/p) = 1.
Nothing is executed and no solver is involved.
"""
import os
from fractions import Fraction as F
from functools import lru_cache
from ir import load, AnalysisError, VERIF, REPO

PIPE = ('function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),'
        'sroa,early-cse<memssa>,gvn,simplifycfg,adce)')
MAXTERMS = 400000
MATH1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'round'}


def witness(name, keep=(), rounds=2, lcssa=False, io=False, only=None):
    """load lib/wit/<name>.c together with the library; W_* functions plus `keep` stay functions.
    A witness file containing "VG_PEEL n" has up to n iterations peeled off loops without a constant count."""
    src = os.path.join(VERIF, 'lib', 'wit', name + '.c')
    import re
    txt = open(src).read()
    ws = tuple(only or re.findall(r'^\w+\s+(W_\w+)\(', txt, re.M))
    peel = re.search(r'VG_PEEL (\d+)', txt)
    defs = tuple('-D' + d for m in re.findall(r'VG_DEF ([\w= ]+)', txt) for d in m.split())
    cl = ('-unroll-threshold=1000000', '-unroll-max-upperbound=64', '-unroll-full-max-count=4096')
    post = ','.join([PIPE] * rounds) + (',function(lcssa)' if lcssa else '')
    if peel:
        cl += ('-memdep-block-scan-limit=100000', '-memdep-block-number-limit=5000', '-memssa-check-limit=100000',
               '-earlycse-mssa-optimization-cap=100000')
        post = 'inferattrs,' + ',function(jump-threading,simplifycfg),'.join([PIPE] * 4)
    return load(pre='function(sroa)', post=post, keep=ws + tuple(keep), extra=src, strip=True, io=io,
                flags=('-O2', '-ftrivial-auto-var-init=pattern', '-fno-math-errno', '-fno-vectorize', '-fno-slp-vectorize') + defs, cl=cl,
                peel=int(peel.group(1)) if peel else 0, split='VG_SPLIT' in txt, limit=130 if only else 600,
                again=(',function(constraint-elimination,correlated-propagation,jump-threading,instcombine<no-verify-fixpoint>,constraint-elimination,simplifycfg),'
                       if 'VG_RANGE' in txt else ',function(jump-threading,simplifycfg),').join([PIPE] * 2)), ws


# ---------------------------------------------------------------- atoms and polynomials
class Atoms:
    def __init__(self):
        self.list = []         # (kind, payload, text)
        self.idx = {}

    def get(self, kind, payload, text):
        k = (kind, payload)
        if k not in self.idx:
            self.idx[k] = len(self.list); self.list.append((kind, payload, text))
        return self.idx[k]


A = Atoms()
ZERO = ()


def P(d):
    return tuple(sorted((m, c) for m, c in d.items() if c))


def const(c):
    return P({(): F(c)})


def var(a):
    return (((( a, 1),), F(1)),)


ONE = const(1)


def padd(p, q, k=1):
    if not q:
        return p
    if not p and k == 1:
        return q
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + c * k
    return P(d)


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def pmul(p, q):
    if not p or not q:
        return ZERO
    if p == ONE:
        return q
    if q == ONE:
        return p
    if len(p) * len(q) > 40 * MAXTERMS:
        raise AnalysisError('expression too large')
    d = {}
    for m, c in p:
        for n, e in q:
            k = mmul(m, n)
            d[k] = d.get(k, 0) + c * e
    if len(d) > MAXTERMS:
        raise AnalysisError('expression too large')
    return P(d)


def ppow(p, n):
    r = ONE
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def pscale(p, c):
    return tuple((m, x * c) for m, x in p) if c else ZERO


def reduce(p):
    """apply the square rules where a squared special atom occurs with a positive exponent."""
    while True:
        hit = None
        for m, c in p:
            for a, e in m:
                if e >= 2 and A.list[a][0] in ('sqrt', 'sin', 'abs'):
                    if hit is None or a > hit:
                        hit = a
        if hit is None:
            return p
        k, pl, _ = A.list[hit]
        sq = pl if k == 'sqrt' else pmul(pl, pl) if k == 'abs' else padd(ONE, ppow(var(A.get('cos', pl, 'cos')), 2), -1)
        out, groups = {}, {}
        for m, c in p:
            e = dict(m).get(hit, 0)
            if e >= 2 or (e <= -2 and k == 'sqrt'):
                rest = tuple((a, x) for a, x in m if a != hit)
                if e & 1:
                    rest = mmul(rest, ((hit, 1),))
                groups.setdefault(e // 2, {})
                groups[e // 2][rest] = groups[e // 2].get(rest, 0) + c
            else:
                out[m] = out.get(m, 0) + c
        r = P(out)
        for h, g in groups.items():
            r = padd(r, pmul(P(g), ppow(sq, h) if h > 0 else ppow(pinv(sq), -h)))
        p = r


def split(p, a):
    """{exponent: coefficient poly} of atom a."""
    out = {}
    for m, c in p:
        e = 0
        rest = []
        for x, y in m:
            if x == a:
                e = y
            else:
                rest.append((x, y))
        d = out.setdefault(e, {})
        rest = tuple(rest)
        d[rest] = d.get(rest, 0) + c
    return {e: P(d) for e, d in out.items()}


@lru_cache(None)
def is_zero(p):
    while True:
        if not p:
            return True
        top = -1
        for m, c in p:
            for a, e in m:
                if a > top and A.list[a][0] in ('den', 'sqrt', 'sin', 'abs'):
                    top = a
        if top < 0:
            return False
        kind, pl, _ = A.list[top]
        s = split(p, top)
        lo = min(s)
        if lo < 0:
            s = {e - lo: c for e, c in s.items()}
        if kind == 'den':
            r = ZERO
            for e, c in s.items():
                r = padd(r, pmul(c, ppow(pl, e)))
            p = r
            continue
        sq = pl if kind == 'sqrt' else pmul(pl, pl) if kind == 'abs' else \
            padd(ONE, ppow(var(A.get('cos', pl, 'cos')), 2), -1)
        par = [ZERO, ZERO]
        for e, c in s.items():
            par[e & 1] = padd(par[e & 1], pmul(c, ppow(sq, e // 2)))
        if par[1] and not is_zero(par[1]):
            return False
        p = par[0]


def lead(p):
    return p[-1][1]


def pinv(p):
    p = reduce(p)
    if not p:
        return var(A.get('undef', 'div0', '1/0'))
    if len(p) == 1:
        m, c = p[0]
        return ((tuple((a, -e) for a, e in m), 1 / c),)
    # factor out the common monomial
    com = None
    for m, c in p:
        d = dict(m)
        com = d if com is None else {a: min(e, d.get(a, 0)) for a, e in com.items() if min(e, d.get(a, 0)) > 0}
    c = lead(p)
    cm = tuple(sorted((a, -e) for a, e in com.items() if e > 0))
    q = P({mmul(m, cm): x / c for m, x in p})
    a = special('den', q)
    return ((mmul(cm, ((a, -1),)), 1 / c),)


def special(kind, p, text=None):
    """atom of `kind` with argument p, unified with an existing one whose argument is equal."""
    k = (kind, p)
    if k in A.idx:
        return A.idx[k]
    for (kk, q), i in list(A.idx.items()):
        if kk == kind and isinstance(q, tuple) and len(p) < 200 and len(q) < 200 and hasspecial(p, q) \
                and (is_zero(padd(p, q, -1)) or kind == 'abs' and is_zero(padd(p, q))):
            A.idx[k] = i
            return i
    return A.get(kind, p, text or kind)


def pureatom(c, args):
    args = tuple(reduce(x) for x in args)
    k = 'pure:' + c
    if (k, args) in A.idx:
        return A.idx[(k, args)]
    for (kk, q), i in list(A.idx.items()):
        if kk == k and len(q) == len(args) and all(x == y or (hasspecial(x, y) and is_zero(padd(x, y, -1)))
                                                   for x, y in zip(args, q)):
            A.idx[(k, args)] = i
            return i
    return A.get(k, args, c)


def prange(p):
    """interval of an integer polynomial over bytes and quotients, or None."""
    lo = hi = F(0)
    for m, c in p:
        r = (F(1), F(1))
        for a, e in m:
            k, pl, _ = A.list[a]
            if e < 1:
                return None
            if k in ('ld', 'clob') and pl[1] == 'i8':
                x = (F(0), F(255))
            elif k == 'fn:idiv' and isconst(pl[1]) and pl[1] and pl[1][0][1] > 0:
                x = prange(pl[0])
                if x is None or x[0] < 0:
                    return None
                x = (x[0] // pl[1][0][1], x[1] // pl[1][0][1])
            elif k in ('fn:trunc_i8',):
                x = (F(0), F(255))
            else:
                return None
            if x[0] < 0:
                return None
            r = (r[0] * x[0] ** e, r[1] * x[1] ** e)
        lo += c * (r[0] if c > 0 else r[1]); hi += c * (r[1] if c > 0 else r[0])
    return lo, hi


def fits(x, ty):
    r = prange(x)
    return r is not None and r[0] >= 0 and r[1] <= {'i8': 255, 'i16': 32767, 'i1': 1}.get(ty, 2 ** 31 - 1)


def idiv(x, d):
    """x / d for an integer constant d > 0 and a nonnegative integer polynomial x."""
    r = prange(x)
    if r is None or r[0] < 0 or d < 1 or any(c.denominator != 1 for m, c in x):
        return var(A.get('fn:idiv', (x, const(d)), 'div'))
    import math
    while True:
        g = math.gcd(int(d), *[int(c) for m, c in x])
        if g > 1:
            x, d = pscale(x, F(1, g)), d / g
        elif len(x) == 1 and x[0][1] == 1 and len(x[0][0]) == 1 and x[0][0][0][1] == 1 and \
                A.list[x[0][0][0][0]][0] == 'fn:idiv' and isconst(A.list[x[0][0][0][0]][1][1]) and d > 1:
            pl = A.list[x[0][0][0][0]][1]
            x, d = pl[0], d * pl[1][0][1]
        else:
            break
    if d == 1:
        return x
    if prange(x)[1] < d:
        return ZERO
    return var(A.get('fn:idiv', (x, const(d)), 'div'))


def hasspecial(p, q):
    return any(A.list[a][0] in ('den', 'sqrt', 'sin', 'cos', 'abs') for r in (p, q) for m, c in r for a, e in m)


def positive(a):
    k, pl, t = A.list[a]
    return k in ('sqrt', 'abs') or (k == 'arg' and (t.startswith('p_') or a in BYTES))


BYTES = set()      # arguments that are grey values


def content(p):
    """common monomial of all terms (exponents may be negative)."""
    com = None
    for m, c in p:
        d = dict(m)
        if com is None:
            com = dict(d)
        else:
            com = {a: min(com.get(a, 0), d.get(a, 0)) for a in set(com) | set(d)}
    return {a: e for a, e in (com or {}).items() if e}


def sqrt_of(p):
    """sqrt(p) = monomial * sqrt(squarefree part)."""
    com = content(p)
    out, rest = ONE, {}
    for a, e in com.items():
        h = e // 2 if e % 2 == 0 else (e - 1) // 2
        if h and A.list[a][0] != 'den':
            base = var(a) if positive(a) else func('fabs', var(a))
            out = pmul(out, ppow(base, h) if h > 0 else ppow(pinv(base), -h))
            rest[a] = -2 * h
    if rest:
        rm = tuple(sorted(rest.items()))
        p = P({mmul(m, rm): c for m, c in p})
    if len(p) == 1 and not p[0][0]:
        import math
        c = p[0][1]
        n, d = math.isqrt(abs(c.numerator)), math.isqrt(c.denominator)
        if c > 0 and n * n == c.numerator and d * d == c.denominator:
            return pmul(out, const(F(n, d)))
    k = ('sqrt', p)
    if k in A.idx:
        return pmul(out, var(A.idx[k]))
    if len(p) < 3000:
        for i in range(len(A.list)):
            kk, r, _ = A.list[i]
            if kk != 'sqrt' or not r:
                continue
            if is_zero(padd(p, r, -1)):
                return pmul(out, var(i))
            # p = m^2 r for a monomial m of positive atoms
            tried = set()
            for m, c in p[:6]:
                n, e = r[-1]
                q = mmul(m, tuple((a, -x) for a, x in n))
                if q in tried or c / e <= 0 or any(x % 2 or not positive(a) for a, x in q):
                    continue
                tried.add(q)
                import math
                f = c / e
                u, v = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if u * u != f.numerator or v * v != f.denominator:
                    continue
                mm = ((tuple((a, x // 2) for a, x in q), F(u, v)),)
                if is_zero(padd(p, pmul(pmul(mm, mm), r), -1)):
                    return pmul(out, pmul(mm, var(i)))
    return pmul(out, var(A.get('sqrt', p, 'sqrt')))


def func(name, p):
    p = reduce(p)
    if name == 'sqrt':
        if not p:
            return ZERO
        return sqrt_of(p)
        if len(p) == 1 and not p[0][0]:
            import math
            c = p[0][1]
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if c > 0 and n * n == c.numerator and d * d == c.denominator:
                return const(F(n, d))
        return var(special('sqrt', p))
    if name == 'fabs':
        if not p:
            return ZERO
        if lead(p) < 0:
            p = pscale(p, -1)
        if len(p) == 1 and all(positive(a) for a, e in p[0][0]):
            return p
        if len(p) == 1:
            out = const(abs(p[0][1]))
            for a, e in p[0][0]:
                b = var(a) if positive(a) else var(special('abs', var(a)))
                out = pmul(out, ((((b[0][0][0][0], e),), F(1)),))
            return out
        for i in range(len(A.list)):
            if A.list[i][0] == 'sqrt' and len(p) < 400:
                for k in (1, -1):
                    if is_zero(padd(p, var(i), k)):
                        return var(i)
        # |c m q| = |c| |m| |q|: factors common to all terms and the scale are taken out
        out, rest = ONE, {}
        for a, e in content(p).items():
            k, pl, t = A.list[a]
            b = var(a) if positive(a) else pinv(func('fabs', pl)) if k == 'den' and ispoly(pl) else func('fabs', var(a))
            out = pmul(out, ppow(b, e) if e > 0 else ppow(pinv(b), -e))
            rest[a] = -e
        rm = tuple(sorted(rest.items()))
        q = P({mmul(m, rm): c for m, c in p})
        out, q = pscale(out, abs(lead(q))), pscale(q, 1 / lead(q))
        return pmul(out, var(special('abs', q)))
    if name in ('sin', 'tan', 'asin', 'atan'):
        if not p:
            return ZERO
        if lead(p) < 0:
            return pscale(func(name, pscale(p, -1)), -1)
        if name == 'tan':
            return pmul(func('sin', p), pinv(func('cos', p)))
        if name == 'sin':
            a = inner(p, 'asin')
            if a is not None:
                return a
        return var(special(name, p))
    if name == 'cos':
        if not p:
            return ONE
        if lead(p) < 0:
            p = pscale(p, -1)
        return var(special(name, p))
    return var(special('fn:' + name, p))


def inner(p, kind):
    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1:
        a = p[0][0][0][0]
        if A.list[a][0] == kind:
            return A.list[a][1]
    return None


def ispoly(p):
    return isinstance(p, tuple) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], F) for x in p)


def text(p, n=6):
    if not p:
        return '0'
    out = []
    for m, c in p[:n]:
        s = '*'.join((atext(a) + ('^%d' % e if e != 1 else '')) for a, e in m)
        out.append((('%s*' % c if c != 1 else '') + s) if s else str(c))
    return ' + '.join(out) + (' + ... (%d terms)' % len(p) if len(p) > n else '')


def atext(a, d=0):
    k, pl, t = A.list[a]
    if k in ('sqrt', 'sin', 'cos', 'abs', 'asin', 'atan') or k.startswith(('fn:', 'pure:')):
        return '%s(%s)' % (k, text(pl, 2) if ispoly(pl) else ', '.join(text(x, 2) for x in pl) if isinstance(pl, tuple) and all(map(ispoly, pl)) else t)
    if k == 'den':
        return '(%s)' % text(pl, 2)
    return t


def opaque_atoms(p, seen=None):
    seen = set() if seen is None else seen
    for m, c in p:
        for a, e in m:
            if a in seen:
                continue
            seen.add(a)
            k, pl, t = A.list[a]
            if k in ('sqrt', 'sin', 'cos', 'abs', 'asin', 'atan', 'den') or k.startswith(('fn:', 'pure:')):
                if ispoly(pl):
                    opaque_atoms(pl, seen)
                elif isinstance(pl, tuple):
                    for x in pl:
                        if ispoly(x):
                            opaque_atoms(x, seen)
    return [a for a in seen if A.list[a][0] in ('opaque', 'clob', 'loop')]


# ---------------------------------------------------------------- decision diagrams
# node: ('L', poly) or ('N', cond, hi, lo); conditions are kept in one global order: CONDS[i] = (kind, poly)
CONDS = []
CIDX = {}
# a condition id packs (poly group, kind): GT before EQ of the same poly


def cond_id(kind, p):
    if (kind, p) not in CIDX:
        if kind in ('gt', 'eq'):
            for k in ('gt', 'eq'):
                CIDX[(k, p)] = len(CONDS); CONDS.append((k, p))
        else:
            CIDX[(kind, p)] = len(CONDS); CONDS.append((kind, p))
    return CIDX[(kind, p)]


class Nd(tuple):
    """interned: equal nodes are the same object."""
    __slots__ = ()
    __hash__ = object.__hash__
    __eq__ = object.__eq__
    __ne__ = object.__ne__


NODES = {}


def leaf(p):
    k = ('L', p)
    r = NODES.get(k)
    if r is None:
        r = NODES[k] = Nd(k)
    return r


def branch(c, hi, lo):
    k = (c, hi, lo)
    r = NODES.get(k)
    if r is None:
        r = NODES[k] = Nd(('N', c, hi, lo))
    return r


TRUE, FALSE = leaf(ONE), leaf(ZERO)
DEAD = leaf(var(A.get('opaque', 'dead', 'unreachable')))


def node(c, hi, lo):
    if CONDS[c][0] == 'gt':
        hi = restrict(hi, c + 1, False)
    if hi == lo:
        return hi
    return branch(c, hi, lo)


@lru_cache(None)
def restrict(n, c, v):
    if n[0] == 'L' or n[1] > c:
        return n
    if n[1] == c:
        return n[2] if v else n[3]
    return node(n[1], restrict(n[2], c, v), restrict(n[3], c, v))


def apply(f, *ns, memo=None):
    memo = {} if memo is None else memo
    if ns in memo:
        return memo[ns]
    if len(memo) > 60000:
        raise AnalysisError('decision diagram too large')
    c = min((n[1] for n in ns if n[0] == 'N'), default=None)
    if c is None:
        r = leaf(f(*[n[1] for n in ns]))
    else:
        hi = apply(f, *[n[2] if n[0] == 'N' and n[1] == c else n for n in ns], memo=memo)
        lo = apply(f, *[n[3] if n[0] == 'N' and n[1] == c else n for n in ns], memo=memo)
        r = node(c, hi, lo)
    memo[ns] = r
    return r


ITE = {}


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a

    k = (c, a, b)
    r = ITE.get(k)
    if r is None:
        v = min(n[1] for n in k if n[0] == 'N') if c[0] == 'N' else None
        if v is None:
            return a if c[1] else b
        hi = ite(*[n[2] if n[0] == 'N' and n[1] == v else n for n in k])
        lo = ite(*[n[3] if n[0] == 'N' and n[1] == v else n for n in k])
        if len(ITE) > 4000000:
            raise AnalysisError('decision diagrams too large')
        r = ITE[k] = node(v, hi, lo)
    return r


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def numeric(p):
    """the value of a polynomial in roots of numbers, when that is clearly not zero."""
    from decimal import Decimal, localcontext
    if len(p) > 12 or not any(m for m, c in p) or not all(A.list[a][0] == 'sqrt' and isconst(A.list[a][1]) for m, c in p for a, e in m):
        return None
    with localcontext() as cx:
        cx.prec = 80
        v = Decimal(0)
        for m, c in p:
            t = Decimal(c.numerator) / c.denominator
            for a, e in m:
                q = A.list[a][1][0][1]
                if q < 0:
                    return None
                t *= (Decimal(q.numerator) / q.denominator).sqrt() ** e
            v += t
        return v if abs(v) > Decimal(10) ** -40 else None


def cmpleaf(p, kind, isint):
    """p > 0 / p >= 0 / p == 0 as a diagram."""
    p = reduce(p)
    if p and all(not m for m, c in p):
        v = p[0][1]
        return TRUE if (v > 0 if kind == 'gt' else v >= 0 if kind == 'ge' else v == 0) else FALSE
    if not p or (len(p) < 60 and hasspecial(p, p) and is_zero(p)):
        return FALSE if kind == 'gt' else TRUE
    v = numeric(p)
    if v is not None:
        return TRUE if kind != 'eq' and v > 0 else FALSE
    if len(p) == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1 and A.list[p[0][0][0][0]][0] == 'sqrt':
        q = A.list[p[0][0][0][0]][1]          # sign of c*sqrt(q)
        if kind == 'eq':
            return cmpleaf(q, 'eq', isint)
        if p[0][1] > 0:
            return cmpleaf(q, 'gt', isint) if kind == 'gt' else TRUE
        return FALSE if kind == 'gt' else cmpleaf(q, 'eq', isint)
    for sg in (1, -1):
        q = p if sg > 0 else pscale(p, -1)
        if nonneg(q) and any(all(A.list[a][0] == 'arg' and positive(a) for a, e in m) for m, c in q):
            return FALSE if kind == 'eq' else TRUE if sg > 0 else FALSE
    if kind == 'eq':
        p = pscale(p, 1 / lead(p))
        return branch(cond_id('eq', p), TRUE, FALSE)
    if nonneg(p) and not any(not m for m, c in p):   # a sum of squares: never negative
        return bnot(cmpleaf(p, 'eq', isint)) if kind == 'gt' else TRUE
    if nonneg(pscale(p, -1)) and not any(not m for m, c in p):
        return FALSE if kind == 'gt' else cmpleaf(p, 'eq', isint)
    l = lead(p)
    q = pscale(p, 1 / abs(l))
    if l > 0:
        if kind == 'gt':
            return branch(cond_id('gt', q), TRUE, FALSE)
        if isint:
            return cmpleaf(padd(p, ONE), 'gt', True)
        g = cond_id('gt', q)
        return node(g, TRUE, branch(g + 1, TRUE, FALSE))
    q = pscale(q, -1)          # p = -|l| q
    return bnot(cmpleaf(pscale(p, -1), 'ge' if kind == 'gt' else 'gt', isint))


def intatom(a):
    k, pl, _ = A.list[a]
    return k in ('ld', 'clob') and pl[1] in ('i8', 'i16', 'i32') or k == 'fn:idiv' or k.startswith('fn:trunc_')


def intscale(base):
    """s such that s*base has coprime integer coefficients and an integer value, or None."""
    if not all(e > 0 and intatom(a) for m, c in base for a, e in m):
        return None
    import math
    l = math.lcm(*[c.denominator for m, c in base])
    return F(l, math.gcd(*[int(c * l) for m, c in base]))


def tighten(base, l, h):
    """integer bounds of an integer-valued base."""
    s = intscale(base)
    if s is None:
        return l, h
    if l is not None:
        x = l[0] * s
        l = ((x.numerator // x.denominator + 1) / s if l[1] else -((-x.numerator) // x.denominator) / s, False)
    if h is not None:
        x = h * s
        h = (x.numerator // x.denominator) / s
    return l, h


def feasible(path):
    """consistency of a set of (cond, value): groups over a common non-constant part."""
    lo, hi, eq, ne = {}, {}, {}, {}
    for c, v in path:
        k, p = CONDS[c]
        if k not in ('gt', 'eq'):
            continue
        cst = dict(p).get((), F(0))
        base = tuple((m, x) for m, x in p if m)
        nn = nonneg(base)
        t = -cst                                  # base + cst > 0  <=>  base > t
        if k == 'gt':
            if v:
                if base not in lo or lo[base] < (t, True):
                    lo[base] = (t, True)
            elif base not in hi or hi[base] > t:
                hi[base] = t                      # base <= t
        elif v:
            if base in eq and eq[base] != t:
                return False
            eq[base] = t
        else:
            ne.setdefault(base, set()).add(t)
        if nn and base not in lo:
            lo[base] = (F(0), False)
    for b in set(lo) | set(hi) | set(eq):
        l, h, e = lo.get(b), hi.get(b), eq.get(b)
        if l is not None and h is not None:
            l, h = tighten(b, l, h)
        if l is not None and h is not None and (l[0] > h or (l[0] == h and (l[1] or h in ne.get(b, ())))):
            return False
        if e is not None:
            if l is not None and (e < l[0] or (e == l[0] and l[1])):
                return False
            if h is not None and e > h:
                return False
            if e in ne.get(b, ()):
                return False
    return True


def polyhedron_empty(path):
    """the conditions of a path as a polyhedron over monomials: empty? (Fourier-Motzkin projection)"""
    eqs, ins, nes = [], [], []
    for c, v in path:
        k, p = CONDS[c]
        if k == 'gt':
            d = dict(p)
            ins.append((d, True) if v else ({m: -x for m, x in d.items()}, False))
        elif k == 'eq':
            (eqs if v else nes).append(dict(p))
    for d in list(eqs) + nes + [x for x, _ in ins]:        # squares, roots and bytes are nonnegative
        for m in d:
            if m and all(e % 2 == 0 or positive(a) for a, e in m):
                ins.append(({m: F(1)}, False))
    def run(ins):
        ins = list(ins); es = [dict(e) for e in eqs]
        while es:
            e = es.pop()
            vs = [m for m in e if m]
            if not vs:
                if e.get((), 0) != 0:
                    return True
                continue
            m = vs[0]; x = e[m]
            def sub(d):
                if m not in d:
                    return d
                f = d[m] / x
                r = dict(d)
                for n, y in e.items():
                    r[n] = r.get(n, 0) - f * y
                    if r[n] == 0:
                        del r[n]
                r.pop(m, None)
                return r
            es = [sub(d) for d in es]; ins = [(sub(d), s) for d, s in ins]
        while True:
            cur, vs = {}, {}
            for d, st in ins:
                if not [m for m in d if m]:
                    x = d.get((), 0)
                    if x < 0 or (x == 0 and st):
                        return True
                    continue
                key = tuple(sorted(d.items()))
                cur[key] = cur.get(key, False) or st
            ins = [(dict(k), st) for k, st in cur.items()]
            if not ins:
                return False
            for d, st in ins:
                for m, x in d.items():
                    if m:
                        t = vs.setdefault(m, [0, 0]); t[x > 0] += 1
            m = min(vs, key=lambda m: vs[m][0] * vs[m][1])
            if vs[m][0] * vs[m][1] > 400:
                return False
            pos = [(d, st) for d, st in ins if d.get(m, 0) > 0]; neg = [(d, st) for d, st in ins if d.get(m, 0) < 0]
            ins = [(d, st) for d, st in ins if m not in d]
            for d, st in pos:
                for e, su in neg:
                    r = {}
                    for n in set(d) | set(e):
                        z = d.get(n, 0) / d[m] - e.get(n, 0) / e[m]
                        if z and n != m:
                            r[n] = z
                    ins.append((r, st or su))
    if run(ins):
        return True
    for d in nes:
        if run(ins + [(d, True)]) and run(ins + [({m: -x for m, x in d.items()}, True)]):
            return True
    return False


def nonneg(p):
    """syntactically nonnegative: positive coefficients over even powers and sqrt/abs atoms."""
    return bool(p) and all(c > 0 and all(e % 2 == 0 or positive(a) for a, e in m) for m, c in p)


def subst(p, m):
    """p with atoms replaced by rational constants, also inside 1/(..) and sqrt(..)."""
    out = ZERO
    for mono, c in p:
        t = const(c)
        for a, e in mono:
            if a in m:
                f = const(m[a])
            else:
                k, pl, _ = A.list[a]
                f = None
                if k in ('den', 'sqrt', 'abs', 'sin', 'cos') and isinstance(pl, tuple):
                    q = subst(pl, m)
                    if q != pl:
                        f = q if k == 'den' else func({'abs': 'fabs'}.get(k, k), q)
                if f is None:
                    f = var(a)
            t = pmul(t, ppow(f, e) if e > 0 else ppow(pinv(f), -e))
        out = padd(out, t)
    return out


def fixed_atoms(path):
    m = {}
    for c, v in path:
        k, p = CONDS[c]
        if k == 'eq' and v:
            base = [(mo, x) for mo, x in p if mo]
            if len(base) == 1 and len(base[0][0]) == 1 and base[0][0][0][1] == 1:
                m[base[0][0][0][0]] = -dict(p).get((), F(0)) / base[0][1]
    return m


def path_eqs(path):
    """polynomials that are zero on the path."""
    lo, hi, out = {}, {}, []
    for c, v in path:
        k, p = CONDS[c]
        if k == 'eq' and v:
            out.append(p)
        elif k == 'gt':
            base = tuple((m, x) for m, x in p if m)
            t = -dict(p).get((), F(0))
            if v:
                if base not in lo or lo[base] < (t, True):
                    lo[base] = (t, True)
            elif base not in hi or hi[base] > t:
                hi[base] = t
    for b in lo:
        if b in hi:
            l, h = tighten(b, lo[b], hi[b])
            if l[0] == h and not l[1]:
                out.append(padd(b, const(h), -1))
    return out


def psubst(p, a0, q):
    """p with the atom a0 replaced by the polynomial q, also inside functions."""
    out = ZERO
    for mono, c in p:
        t = const(c)
        for a, e in mono:
            if a == a0:
                f = q
            else:
                k, pl, _ = A.list[a]
                f = None
                if k in ('den', 'sqrt', 'abs', 'sin', 'cos', 'asin', 'atan') or k.startswith('fn:') and ispoly(pl):
                    r = psubst(pl, a0, q)
                    if r != pl:
                        f = r if k == 'den' else pureint(k, r) if k.startswith('fn:trunc_') else \
                            func({'abs': 'fabs'}.get(k, k[3:] if k.startswith('fn:') else k), r)
                elif k.startswith('pure:') and all(map(ispoly, pl)):
                    r = tuple(psubst(x, a0, q) for x in pl)
                    if r != pl:
                        f = var(pureatom(k[5:], r))
                if f is None:
                    f = var(a)
            t = pmul(t, ppow(f, e) if e > 0 else ppow(pinv(f), -e))
        out = padd(out, t)
    return out


def pureint(k, r):
    r = reduce(r)
    if isconst(r) or fits(r, k[9:]):
        if not isconst(r) or 0 <= (r[0][1] if r else 0) <= 127:
            return r
    return var(A.get(k, r, k))


def contains(p, a0):
    """does the atom occur anywhere in p?"""
    for m, c in p:
        for a, e in m:
            if a == a0:
                return True
            pl = A.list[a][1]
            if isinstance(pl, tuple) and (contains(pl, a0) if ispoly(pl) else
                                          any(isinstance(x, tuple) and ispoly(x) and contains(x, a0) for x in pl)):
                return True
    return False


def vanishes(path, p):
    """is p zero because of an equality the path implies?"""
    for e in path_eqs(path):
        todo = []
        for m, c in e:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                q = pscale(padd(e, ((m, c),), -1), -1 / c)
                if not contains(q, a):
                    todo.append((a, q))
        for a, q in todo:
            r = reduce(psubst(p, a, q))
            if is_zero(r):
                return True
        if todo:
            p = reduce(psubst(p, *todo[0]))
    return False


def simplify_path(path, p):
    """residual with the atoms the path fixes replaced; None when the path contradicts itself."""
    m = fixed_atoms(path)
    if not m:
        return p
    for c, v in path:
        k, q = CONDS[c]
        if k not in ('gt', 'eq'):
            continue
        if any(a in m for mo, _ in q for a, e in mo):
            r = reduce(subst(q, m))
            if isconst(r):
                x = r[0][1] if r else 0
                if ((x > 0) if k == 'gt' else (x == 0)) != v:
                    return None
    return reduce(subst(p, m))


def leaves(n, path=(), generic=False):
    if n[0] == 'L':
        yield path, n[1]
        return
    for v in (True, False):
        pp = path + ((n[1], v),)
        if generic and v and CONDS[n[1]][0] == 'eq':
            continue
        if feasible(pp):
            yield from leaves(n[2] if v else n[3], pp, generic)


def pathtext(path):
    out = []
    for c, v in path:
        k, p = CONDS[c]
        op = {('gt', True): '> 0', ('gt', False): '<= 0', ('eq', True): '== 0', ('eq', False): '!= 0'}.get((k, v), '%s is %s' % (k, v))
        out.append((text(p, 3) if isinstance(p, tuple) else str(p)) + ' ' + op)
    return ' and '.join(out)


# ---------------------------------------------------------------- value graph of one function
SIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'float': 4}
OUTS = ('zero', 'truth', 'need')


class VG:
    def __init__(self, fn, pure=(), abstract=False, lv=None):
        self.cut = (); self.out = None; self.esc = {}; self.abstract = abstract; self.lv = lv or {}
        self.fn = fn; self.val = {}; self.reach = {0: TRUE}; self.pure = set(pure)
        self.back = {(b, L['header']) for L in fn.loops for b in L['latches']}
        self.inloop = {b for L in fn.loops for b in L['blocks']}
        self.selmemo = {}; self.io = True; self.wreach = {}; self.wedge = {}

    def op(self, o):
        k = o[0]
        if k == 'v':
            return self.v(o[1])
        if k == 'i':
            return leaf(const(o[1]))
        if k == 'f':
            if isinstance(o[1], (int, float)):
                return leaf(const(F(o[1])))
            # clang folds arithmetic on uninitialised values to NaN
            return leaf(var(A.get('undef' if 'nan' in str(o[1]).lower() else 'opaque', o[1], str(o[1]))))
        if k == 'a':
            n = self.fn.args[o[1]]['name'] or 'arg%d' % o[1]
            a = A.get('arg', (self.fn.name, o[1]), n)
            if self.fn.args[o[1]]['ty'] == 'i8':
                BYTES.add(a)
            return leaf(var(a))
        if k == 'null':
            return FALSE
        if k == 'g':
            return leaf(var(A.get('glob', o[1], o[1])))
        return leaf(var(A.get('undef' if k in ('undef', 'poison') else 'opaque', repr(o), str(k))))

    def v(self, i):
        if i not in self.val:
            if i in self.cut:
                self.val[i] = leaf(var(A.get('loop', (self.fn.name, i), 'loopout%d' % i)))
            else:
                self._eval(i)
        return self.val[i]

    def outside(self):
        """the same values seen after the loops: what a loop hands to its next iteration is a symbol."""
        if not self.out:
            g = self.out = VG(self.fn, self.pure, True, self.lv)
            g.out = g
            g.cut = latched(self.fn)
        return self.out

    def _eval(self, i):
        d = self.fn.insts[i]
        r = self.compute(d)
        self.val[i] = r
        return r

    def opaque(self, d, kind=None):
        kind = kind or ('heap' if d.callee in ('malloc', 'calloc') else 'opaque')
        return leaf(var(A.get(kind, (self.fn.name, d.id), '%s@%s' % (d.callee or d.op, d.line))))

    def compute(self, d):
        o = d.op
        isint = (d.ty or '').startswith('i')
        if o == 'phi':
            return self.phi(d)
        a = [self.op(x) for x in d.ops if x[0] != 'bb'] if o not in ('call', 'switch', 'br') else None
        if o in ('fadd', 'add'):
            return apply(padd, *a)
        if o in ('fsub', 'sub'):
            return apply(lambda x, y: padd(x, y, -1), *a)
        if o in ('fmul', 'mul'):
            return apply(pmul, *a)
        if o == 'fneg':
            return apply(lambda x: pscale(x, -1), a[0])
        if o == 'fdiv':
            return apply(lambda x, y: pmul(x, pinv(y)), *a)
        if o in ('sdiv', 'udiv'):
            return apply(self.sdiv, *a)
        if o in ('srem', 'urem'):
            return apply(lambda x, y: padd(x, pmul(y, self.sdiv(x, y)), -1), *a)
        if o == 'shl' and d.ops[1][0] == 'i':
            return apply(lambda x: pscale(x, F(2) ** d.ops[1][1]), a[0])
        if o in ('ashr', 'lshr') and d.ops[1][0] == 'i':
            return apply(lambda x: var(special('fn:floordiv%d' % 2 ** d.ops[1][1], x)), a[0])
        if o == 'sext' and d.ops[0][0] == 'v' and self.fn.insts[d.ops[0][1]].ty == 'i8':
            return apply(lambda x: x if isconst(x) else var(special('fn:sext8', x)), a[0])
        if o in ('sext', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'freeze', 'bitcast', 'inttoptr', 'ptrtoint'):
            return a[0]
        if o == 'zext':
            return a[0]
        if o == 'trunc':
            if d.ty == 'i32':
                return a[0]
            return apply(lambda x: x if isconst(x) or fits(x, d.ty) else var(special('fn:trunc_' + d.ty, x)), a[0])
        if o in ('fptosi', 'fptoui'):
            return apply(lambda x: const(int(x[0][1]) if x else 0) if isconst(x) else var(special('fn:int', reduce(x))), a[0])
        if o == 'icmp':
            p = d.pred
            if p in ('ult', 'ule', 'ugt', 'uge'):
                if d.ops[1][0] == 'i' and d.ops[1][1] > 0 and p in ('ult', 'ule'):
                    # x <u c  <=>  0 <= x && x < c
                    k = d.ops[1][1] + (1 if p == 'ule' else 0)
                    return band(apply2(a[0], lambda x: cmpleaf(x, 'ge', True)),
                                apply2(a[0], lambda x: cmpleaf(padd(const(k), x, -1), 'gt', True)))
                if d.ops[1][0] == 'i' and d.ops[1][1] >= 0 and p in ('ugt', 'uge'):
                    k = d.ops[1][1] + (1 if p == 'ugt' else 0)
                    return bnot(band(apply2(a[0], lambda x: cmpleaf(x, 'ge', True)),
                                     apply2(a[0], lambda x: cmpleaf(padd(const(k), x, -1), 'gt', True))))
                p = 's' + p[1:]
            return self.cmp(p, a, True)
        if o == 'fcmp':
            p = d.pred
            if p in ('uno', 'ord'):
                if d.ops[1][0] == 'f' or d.ops[0] == d.ops[1]:
                    r = apply2(a[0], lambda x: branch(cond_id('isnan', reduce(x)), TRUE, FALSE) if not isconst(x) else FALSE)
                    return r if p == 'uno' else bnot(r)
                return self.opaque(d)
            if p in ('true', 'false'):
                return TRUE if p == 'true' else FALSE
            return self.cmp({'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}.get(p, 's' + p[1:]), a, False)
        if o == 'select':
            return ite(*a)
        if o in ('and', 'or', 'xor'):
            if d.ty == 'i1':
                if o == 'and':
                    return band(*a)
                if o == 'or':
                    return bor(*a)
                return ite(a[0], bnot(a[1]), a[1])
            return apply(lambda x, y: var(A.get('fn:' + o, (x, y), o)), *a)
        if o == 'getelementptr':
            if d.gep and 'co' in d.gep:
                r = apply(lambda x: padd(x, const(d.gep['co'])), a[0])
                for x, sc in d.gep.get('vo', []):
                    r = apply(lambda u, w: padd(u, pscale(w, sc)), r, self.op(tuple(x)))
                return r
            return self.opaque(d)
        if o == 'alloca':
            return leaf(var(A.get('alloca', (self.fn.name, d.id), 'local%d' % d.id)))
        if o == 'load':
            ver = self.memver(d)
            if ver or self.rootof(d.ops[0])[0] in ('heap', 'al'):
                r = self.memory(d)
                if r is not None:
                    return r
                if self.io and self.rootof(d.ops[0])[0] == 'heap':
                    return self.opaque(d)
            return apply(lambda x: self.loadatom(x, d.ty, ver), a[0])
        if o == 'call':
            return self.call(d)
        return self.opaque(d)

    def loadatom(self, p, ty, ver):
        return var(A.get('clob' if ver else 'ld', (p, ty, ver), 'mem[%s]' % text(p, 4)))

    def cmp(self, p, a, isint):
        if p == 'ne':
            return bnot(self.cmp('eq', a, isint))

        def f(x, y):
            if p == 'eq':
                a, b = single(x), single(y)
                if a and b and a[0] == b[0] == 'heap' and a != b:
                    return FALSE
                return cmpleaf(padd(x, y, -1), 'eq', isint)
            if p in ('sgt', 'sge'):
                return cmpleaf(padd(x, y, -1), 'gt' if p == 'sgt' else 'ge', isint)
            return cmpleaf(padd(y, x, -1), 'gt' if p == 'slt' else 'ge', isint)
        return apply3(a[0], a[1], f)

    def sdiv(self, x, y):
        if isconst(x) and isconst(y) and y:
            a, b = (x[0][1] if x else 0), y[0][1]
            q = abs(a) // abs(b)
            return const(q if (a >= 0) == (b > 0) else -q)
        if isconst(y) and y and y[0][1] > 0:
            return idiv(x, y[0][1])
        return var(A.get('fn:idiv', (x, y), '(%s / %s)' % (text(x, 3), text(y, 3))))

    def call(self, d):
        c = d.callee or ''
        b = c[5:].split('.')[0] if c.startswith('llvm.') else c
        if b in MATH1 or b in ('sqrt', 'fabs'):
            return apply(lambda x: func(b, x), self.op(d.ops[0]))
        if b in ('pow', 'powi'):
            def power(x, y):
                if isconst(y):
                    e = y[0][1] if y else 0
                    if abs(e) <= 12 and (2 * e).denominator == 1:
                        r = ppow(x if e.denominator == 1 else func('sqrt', x), int(abs(e) * (1 if e.denominator == 1 else 2)))
                        return r if e >= 0 else pinv(r)
                return var(A.get('fn:' + b, (x, y), b))
            return apply(power, self.op(d.ops[0]), self.op(d.ops[1]))
        if b == 'hypot':
            return apply(lambda x, y: func('sqrt', padd(pmul(x, x), pmul(y, y))), self.op(d.ops[0]), self.op(d.ops[1]))
        if b in ('fma', 'fmuladd') and len(d.ops) >= 3:
            return apply(lambda x, y, z: padd(pmul(x, y), z), *[self.op(o) for o in d.ops[:3]])
        if b in ('fmod', 'atan2'):
            return apply(lambda x, y: var(A.get('fn:' + b, (x, y), b)), self.op(d.ops[0]), self.op(d.ops[1]))
        if b in ('maxnum', 'minnum', 'smax', 'smin', 'fmax', 'fmin'):
            x, y = self.op(d.ops[0]), self.op(d.ops[1])
            g = self.cmp('sgt', [x, y], b[0] == 's')
            return ite(g, x, y) if 'max' in b else ite(g, y, x)
        if b == 'abs' and c.startswith('llvm.abs'):
            return apply(lambda x: func('fabs', x), self.op(d.ops[0]))
        if c in ('vg_loop', 'vg_next', 'vg_out'):
            k = self.op(d.ops[0])
            t = self.lv.get(int(k[1][0][1]) if k[1] else 0)
            if t is None:
                return self.opaque(d)
            if c == 'vg_loop':
                return leaf(var(A.get('loop', (self.fn.name, t), 'loop%d' % t)))
            ph = self.fn.insts[t]
            for o, p in ph.incoming:
                if (p, ph.bb) in self.back:
                    return self.op(o)
            return self.opaque(d)
        if c.startswith(IOCALLS):
            return self.iocall(d, c)
        if c in self.pure or c.startswith('vg_'):
            return apply(lambda *x: var(pureatom(c, x)), *[self.op(o) for o in d.ops])
        return self.opaque(d)

    # ---- files as streams of values (irdump -io)
    def iocall(self, d, c):
        if c.startswith('vg_lit.'):
            return leaf(strval((('l', bytes.fromhex(c[7:]).decode('latin1')),)))
        if c.startswith('vg_num.'):
            sp = bytes.fromhex(c[7:]).decode('latin1')
            return apply(lambda x: strval((('n', sp, x),)), self.op(d.ops[0]))
        if c == 'vg_cat':
            return apply(lambda x, y: strval(strparts(x) + strparts(y)), self.op(d.ops[0]), self.op(d.ops[1]))
        if c.startswith('vg_open.'):
            return apply(lambda x: var(A.get('file', x, 'file(%s)' % text(x, 2))), self.op(d.ops[0]))
        if c.startswith('vg_scan_'):
            f = self.op(d.ops[0])
            k = self.position(d)
            if f[0] != 'L' or k is None or filekey(f[1]) is None:
                return self.opaque(d)
            t = c[8:]
            return apply(lambda x: var(A.get('scan', (filekey(f[1]), x, t), '%s#%s of %s' % (t, text(x), text(filekey(f[1]), 2)))), k)
        # vg_in_<type>(name, k)
        return apply(lambda n, x: var(A.get('scan', (n, x, c[6:]), '%s#%s of %s' % (c[6:], text(x), text(n, 2)))),
                     self.op(d.ops[0]), self.op(d.ops[1]))

    def position(self, d, key=None):
        """how many values were read from / written to the file before instruction d (a decision diagram)."""
        key = key or self.op(d.ops[0])
        memo = self.selmemo.setdefault(('pos', key), {})

        def upto(b, k):
            n = sum(1 for i in self.fn.blocks[b][:k] if i.op == 'call' and (i.callee or '').startswith(('vg_scan_', 'vg_emit.', 'vg_text.'))
                    and self.op(i.ops[0]) == key)
            e = entry(b)
            return None if e is None else apply(lambda x: padd(x, const(n)), e)

        def entry(b):
            if b in memo:
                return memo[b]
            memo[b] = None
            if not self.fn.pred[b]:
                memo[b] = FALSE
                return FALSE
            inc = {}
            for p in self.fn.pred[b]:
                if (p, b) in self.back:
                    L = next(L for L in self.fn.loops if L['header'] == b)
                    if any(i.op == 'call' and (i.callee or '').startswith(('vg_scan_', 'vg_emit.', 'vg_text.')) for x in L['blocks'] for i in self.fn.blocks[x]):
                        return None
                    continue
                inc[p] = upto(p, len(self.fn.blocks[p]))
                if inc[p] is None:
                    return None
            memo[b] = self.gate(b, inc)
            return memo[b]
        return upto(d.bb, d.idx)

    def emitted(self, name):
        out = []
        for b in self.fn.rpo:
            for i in self.fn.blocks[b]:
                if i.op == 'call' and (i.callee or '').startswith(('vg_emit.', 'vg_text.', 'vg_space', 'vg_scan_')):
                    f = self.op(i.ops[0])
                    if f[0] != 'L' or filekey(f[1]) is None:
                        out.append((None, i))
                    elif filekey(f[1]) == name:
                        out.append((f, i))
        return out

    def wanted(self, i):
        """vg_want(name, k, value, decimals) / vg_total(name, n): list of (value diagram that must be 0, reach, text)."""
        nm = self.op(i.ops[0])
        kk = self.op(i.ops[1])
        if nm[0] != 'L' or kk[0] != 'L':
            return [(self.opaque(i), TRUE, 'name')]
        em = self.emitted(nm[1])
        if any(f is None for f, _ in em):
            return [(self.opaque(i), TRUE, 'file')]
        if i.callee == 'vg_total':
            pos = self.position(i, em[0][0]) if em else FALSE
            res = [(apply(lambda x: padd(x, kk[1], -1), pos) if pos is not None else self.opaque(i), self.reachb(i.bb), 'number of values')]
            w = [x for _, x in em if x.callee.startswith(('vg_emit.', 'vg_space'))]
            for x, y in zip(w, w[1:]):
                if x.callee.startswith('vg_emit.') and y.callee.startswith('vg_emit.') and x.callee[-1] == '0' and y.callee[-2] == '0':
                    res.append((leaf(const(1)), self.reachb(y.bb), 'no separator between two values'))
            return res
        v, pr = self.op(i.ops[2]), self.op(i.ops[3])
        res, hit = [], FALSE
        for f, x in em:
            if x.callee.startswith(('vg_space', 'vg_scan_')):
                continue
            p = self.position(x, f)
            if p is None:
                return [(self.opaque(i), TRUE, 'position')]
            r = band(self.reachb(x.bb), apply2(p, lambda u: TRUE if padd(u, kk[1], -1) == ZERO else FALSE))
            if r == FALSE:
                continue
            hit = bor(hit, r)
            if x.callee.startswith('vg_text.'):
                res.append((leaf(const(1)), r, 'text instead of a value'))
                continue
            res.append((apply(lambda a, b: padd(a, b, -1), self.op(x.ops[1]), v), r, 'value'))
            p = const(int(x.callee.split('.')[2]))
            want = pr[1][0][1] if pr[1] else 0
            have = p[0][1] if p else 0
            if (have < 0) != (want < 0) or have < want:
                res.append((leaf(const(1)), r, 'decimals: %s instead of %s' % (have, want)))
        res.append((ite(hit, FALSE, leaf(ONE)), self.reachb(i.bb), 'missing'))
        return res

    def memver(self, d):
        """0 when nothing the function does can have changed the loaded location before the load."""
        r = self.rootof(d.ops[0])
        seen, work = set(), [(d.bb, d.idx)]
        while work:
            b, k = work.pop()
            for i in reversed(self.fn.blocks[b][:k]):
                if self.clobbers(i, r):
                    return (self.fn.name, d.id)
            for p in self.fn.pred[b]:
                if p not in seen:
                    seen.add(p); work.append((p, len(self.fn.blocks[p])))
        return 0

    def rootof(self, o, depth=0):
        if o[0] == 'v' and depth < 30:
            d = self.fn.insts[o[1]]
            if d.op == 'getelementptr':
                return self.rootof(d.ops[0], depth + 1)
            if d.op == 'alloca':
                return ('al', d.id)
            if d.op == 'call' and d.callee in ('malloc', 'calloc'):
                return ('heap', d.id)
            if d.op == 'phi' and len(d.incoming) == 1:
                return self.rootof(d.incoming[0][0], depth + 1)
            if d.op in ('load', 'phi', 'select'):
                r = self.rootval(self.within(d.bb, self.op(o)))
                if r:
                    return r
            if d.op == 'load':
                return ('ld', self.rootof(d.ops[0], depth + 1))
        if o[0] == 'a':
            return ('arg', o[1])
        return ('?',)

    def rootval(self, v):
        """the one object all leaves of a pointer value point into, or None."""
        out, work = set(), [v]
        while work:
            n = work.pop()
            if n[0] == 'N':
                work += [n[2], n[3]]
                continue
            if n == DEAD:
                continue
            r = None
            for m, c in n[1]:
                a = A.list[m[0][0]] if len(m) == 1 and m[0][1] == 1 and c == 1 else None
                if a and a[0] in ('heap', 'alloca') and a[1][0] == self.fn.name:
                    r = ('al' if a[0] == 'alloca' else 'heap', a[1][1])
                elif a and a[0] == 'arg' and a[1][0] == self.fn.name and r is None:
                    r = ('arg', a[1][1])
            out.add(r)
        return out.pop() if len(out) == 1 else None

    def within(self, b, v):
        """v, with DEAD in place of what it cannot be where block b is reached."""
        if v[0] == 'L':
            return v
        if b not in self.wreach:
            reach = {}
            for x in self.fn.rpo:
                if not self.fn.pred[x]:
                    reach[x] = TRUE
                else:
                    r = FALSE
                    for p in self.fn.pred[x]:
                        if (p, x) in self.back or p not in reach:
                            continue
                        if p not in self.wreach:
                            self.wreach[p] = reach[p]
                        k = (p, x)
                        if k not in self.wedge:
                            self.wedge[k] = self.edge(p, x)
                        r = bor(r, band(reach[p], self.wedge[k]))
                    reach[x] = self.wreach[x] if x in self.wreach else r
                if x == b:
                    self.wreach[b] = reach[b]
                    break
        return ite(self.wreach[b], v, DEAD)

    def clobbers(self, i, r):
        if i.op == 'store':
            s = self.rootof(i.ops[1])
            if s[0] == '?' or r[0] == '?':
                return True
            if s[0] == 'arg' and (self.fn.args[s[1]]['name'] in OUTS):
                return False
            return s == r
        if i.op == 'call':
            c = i.callee or ''
            if c.startswith('llvm.') and not c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                return False
            if c in MATH1 or c in self.pure or c.startswith('vg_') or c in ('printf', 'puts', 'fmod', 'atan2', 'hypot', 'fma', 'fmin', 'fmax', 'pow', 'powi', 'sqrt', 'fabs', 'putchar'):
                return False
            if c.startswith('llvm.mem'):
                return self.rootof(i.ops[0]) == r or '?' in (self.rootof(i.ops[0])[0], r[0])
            return r[0] != 'arg' or True
        return False

    # ---- control
    def edge(self, b, s):
        t = self.fn.blocks[b][-1]
        if t.op == 'br':
            if len(t.succ) == 1 or t.succ[0] == t.succ[1]:
                return TRUE
            c = self.op(t.ops[0])
            return c if t.succ[0] == s else bnot(c)
        if t.op == 'switch':
            x = self.op(t.ops[0])
            conds = [(self.cmp('eq', [x, leaf(const(v))], True), bb) for v, bb in t.cases]
            r, anyc = FALSE, FALSE
            for c, bb in conds:
                anyc = bor(anyc, c)
                if bb == s:
                    r = bor(r, c)
            if t.default == s:
                r = bor(r, bnot(anyc))
            return r
        return TRUE

    def exits(self):
        """what holds because the only way out of a loop was taken: sure to come, as every loop ends (C16)."""
        r = set()
        for L in self.fn.loops:
            out = [(b, s) for b in L['blocks'] for s in dict.fromkeys(self.fn.blocks[b][-1].succ) if s not in L['blocks']]
            if len(out) == 1 and out[0][0] in L['latches'] + [L['header']] and out[0][0] in self.reach:
                for path, p in leaves(self.edge(*out[0])):
                    if p == ONE:
                        r |= set(path)
        return r

    def reachb(self, b):
        if b not in self.reach:
            for x in self.fn.rpo:
                if x in self.reach:
                    continue
                r = FALSE
                for p in self.fn.pred[x]:
                    if (p, x) in self.back or p not in self.reach:
                        continue
                    r = bor(r, band(self.reach[p], self.edge(p, x)))
                self.reach[x] = r
        return self.reach[b]

    def phi(self, d):
        b = d.bb
        if any((p, b) in self.back for _, p in d.incoming):
            return leaf(var(A.get('loop', (self.fn.name, d.id), 'loop%d' % d.id)))
        if self.abstract and d.incoming and all(
                o[0] == 'v' and any(self.fn.insts[o[1]].bb in L['blocks'] and b not in L['blocks'] for L in self.fn.loops)
                for o, p in d.incoming):
            if len(d.incoming) == 1:
                return self.outside().v(d.incoming[0][0][1])
            return leaf(var(A.get('loop', (self.fn.name, d.id), 'loopout%d' % d.id)))
        r = self.gate(b, {p: self.op(o) for o, p in d.incoming})
        return r if r is not None else self.opaque(d)

    def gate(self, b, inc):
        """the value inc[p] of the predecessor p through which block b is entered, as a decision diagram."""
        if len(set(inc.values())) == 1:
            return next(iter(inc.values()))
        top = self.fn.idom[b]
        # region = blocks between top and b
        region, work = set(), [p for p in inc]
        while work:
            x = work.pop()
            if x in region:
                continue
            region.add(x)
            if x != top:
                work += [p for p in self.fn.pred[x] if (p, x) not in self.back]
        memo = {}

        def sel(x):
            if x in memo:
                return memo[x]
            t = self.fn.blocks[x][-1]
            res = None
            for s in dict.fromkeys(t.succ):
                if (x, s) in self.back:
                    continue
                if s == b and x in inc:
                    v = inc[x]
                elif s in region:
                    v = sel(s)
                else:
                    continue
                if v is None:
                    continue
                res = v if res is None else ite(self.edge(x, s), v, res)
            memo[x] = res
            return res
        return sel(top)

    # ---- memory
    def memory(self, d):
        """the value a load yields, followed back through stores to the same object; None: unknown."""
        root = self.rootof(d.ops[0])

        def at(n):
            if n == DEAD:
                return DEAD
            if n[0] == 'L':
                return self.memat(root, n[1], d.ty, d.bb, d.idx, {})
            h, l = at(n[2]), at(n[3])
            if h is None or l is None:
                return None
            return l if h == DEAD else h if l == DEAD else ite(node(n[1], TRUE, FALSE), h, l)
        ad = self.op(d.ops[0])
        if ad[0] != 'L':
            if root[0] not in ('al', 'heap'):
                return None
            ad = self.within(d.bb, ad)
        return at(ad)

    def memat(self, root, addr, ty, b, k, memo):
        for i in reversed(self.fn.blocks[b][:k]):
            if i.op == 'store':
                sr = self.rootof(i.ops[1])
                if sr[0] == 'arg' and self.fn.args[sr[1]]['name'] in OUTS:
                    continue
                if self.distinct(sr, root):
                    continue
                sa = self.op(i.ops[1])
                if sr != root:
                    return None
                if sa[0] != 'L':
                    # a conditional address: the stored value where it is this location, the earlier one where it is not
                    v = self.op(i.ops[0]) if not (i.sty and i.sty != ty) else None
                    u = self.memat(root, addr, ty, b, i.idx, memo)

                    def pick(n):
                        if n == DEAD:
                            return DEAD
                        if n[0] == 'L':
                            df = padd(n[1], addr, -1)
                            if not df:
                                return v
                            if isconst(df) and (-df[0][1] >= SIZE.get(i.sty, 8) if df[0][1] < 0 else df[0][1] >= SIZE.get(ty, 8)):
                                return u
                            return None
                        h, l = pick(n[2]), pick(n[3])
                        if h is None or l is None:
                            return None
                        return l if h == DEAD else h if l == DEAD else ite(node(n[1], TRUE, FALSE), h, l)
                    return pick(self.within(b, sa))
                df = padd(sa[1], addr, -1)
                if not df:
                    v = i.ops[0]
                    if i.sty and i.sty != ty:
                        return None
                    return self.op(v)
                # store at addr + df: apart from the load when it ends before it or begins after it
                if isconst(df) and (-df[0][1] >= SIZE.get(i.sty, 8) if df[0][1] < 0 else df[0][1] >= SIZE.get(ty, 8)):
                    continue
                return None
            if i.op == 'call':
                c = i.callee or ''
                if c.startswith('llvm.memset') and self.rootof(i.ops[0]) == root and i.ops[1] == ('i', 0) and i.ops[2][0] == 'i':
                    ma = self.op(i.ops[0])
                    df = padd(addr, ma[1], -1) if ma[0] == 'L' else None
                    if df is None or not isconst(df):
                        return None
                    off = df[0][1] if df else 0
                    if 0 <= off < i.ops[2][1]:
                        return FALSE
                    continue
                if root == ('heap', i.id):
                    return FALSE if c == 'calloc' else self.opaque(i, 'undef')
                if c == 'free' or c in ('malloc', 'calloc'):
                    continue
                if root[0] in ('heap', 'al') and not self.escapes(root):
                    if c.startswith('llvm.mem') and self.rootof(i.ops[0]) in (root, ('?',)):
                        return None
                    continue
                if self.clobbers(i, root):
                    return None
            if i.op == 'alloca' and root == ('al', i.id):
                return self.opaque(i, 'undef')
        if b in memo:
            return memo[b]
        if not self.fn.pred[b]:
            return leaf(self.loadatom(addr, ty, 0)) if root[0] in ('arg', 'ld') else None
        memo[b] = None
        for L in self.fn.loops:
            if L['header'] == b:
                if any(x.op == 'store' and not self.distinct(self.rootof(x.ops[1]), root) or
                       x.op == 'call' and self.clobbers(x, root) for y in L['blocks'] for x in self.fn.blocks[y]):
                    return None
        inc = {}
        for p in self.fn.pred[b]:
            if (p, b) in self.back:
                continue
            v = self.memat(root, addr, ty, p, len(self.fn.blocks[p]), memo)
            if v is None:
                if len(self.fn.pred[b]) < 2:
                    return None
                v = leaf(var(A.get('opaque', (self.fn.name, 'mem', p, b, addr), 'mem at %s.%s' % (p, b))))      # unknown on this way only
            inc[p] = v
        memo[b] = self.gate(b, inc)
        return memo[b]

    def distinct(self, a, b):
        if a[0] in ('heap', 'al') and b[0] in ('heap', 'al', 'arg', 'ld') or b[0] in ('heap', 'al') and a[0] in ('arg', 'ld'):
            return a != b and not (a[0] == 'al' and self.escapes(a) and b[0] == 'ld') \
                and not (b[0] == 'al' and self.escapes(b) and a[0] == 'ld')
        return a[0] == 'arg' and b[0] == 'arg' and a != b

    def escapes(self, root):
        if root not in self.esc:
            work, seen, r = [root[1]], set(), False
            while work and not r:
                v = work.pop()
                if v in seen:
                    continue
                seen.add(v)
                for u in self.fn.uses.get(v, ()):
                    if u.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                        work.append(u.id)
                    elif u.op == 'store' and u.ops[0] == ('v', v):
                        r = True
                    elif u.op == 'call' and not (u.callee or '').startswith('llvm.') and u.callee != 'free':
                        r = True
            self.esc[root] = r
        return self.esc[root]

    def obligations(self):
        for b in self.fn.rpo:
            for i in self.fn.blocks[b]:
                if i.op == 'call' and i.callee in ('vg_want', 'vg_total'):
                    yield 'want', i
                if i.op == 'call' and i.callee in ('vg_zero', 'vg_truth', 'vg_need'):
                    yield i.callee[3:], i
                if i.op == 'store':
                    r = self.rootof(i.ops[1])
                    if r[0] == 'arg' and self.fn.args[r[1]]['name'] in OUTS:
                        yield self.fn.args[r[1]]['name'], i


IOCALLS = ('vg_lit.', 'vg_num.', 'vg_cat', 'vg_open.', 'vg_scan_', 'vg_in_')


def strval(parts):
    out = []
    for x in parts:
        if x[0] == 'l' and out and out[-1][0] == 'l':
            out[-1] = ('l', out[-1][1] + x[1])
        elif x != ('l', ''):
            out.append(x)
    if len(out) == 1 and out[0][0] == 'p':
        return out[0][1]
    return var(A.get('str', tuple(out), '"%s"' % ''.join(x[1] if x[0] == 'l' else '%%%s(%s)' % (x[1], text(x[2], 2)) if x[0] == 'n'
                                                         else '<%s>' % text(x[1], 2) for x in out)))


def single(p):
    return A.list[p[0][0][0][0]] if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1 else None


def strparts(p):
    a = single(p)
    return a[1] if a and a[0] == 'str' else (('p', p),)


def filekey(p):
    a = single(p)
    return a[1] if a and a[0] == 'file' else None


def latched(fn):
    back = {(x, L['header']) for L in fn.loops for x in L['latches']}
    return {o[1] for b in fn.rpo for d in fn.blocks[b] if d.op == 'phi' for o, p in d.incoming
            if (p, b) in back and o[0] == 'v'}


def apply2(n, f, memo=None):
    """like apply, but f maps a leaf to a diagram."""
    return applyd(f, n)


def apply3(x, y, f):
    return applyd(f, x, y)


def applyd(f, *ns, memo=None):
    """like apply, but f maps leaves to a diagram."""
    memo = {} if memo is None else memo
    if ns in memo:
        return memo[ns]
    if len(memo) > 60000:
        raise AnalysisError('decision diagram too large')
    c = min((n[1] for n in ns if n[0] == 'N'), default=None)
    if c is None:
        r = f(*[n[1] for n in ns])
    else:
        hi = applyd(f, *[n[2] if n[0] == 'N' and n[1] == c else n for n in ns], memo=memo)
        lo = applyd(f, *[n[3] if n[0] == 'N' and n[1] == c else n for n in ns], memo=memo)
        r = ite(branch(c, TRUE, FALSE), hi, lo)
    memo[ns] = r
    return r


def isconst(p):
    return not p or (len(p) == 1 and not p[0][0])


def decide(fn, pure=(), generic=False, abstract=False):
    """[(ok, instruction, message, opaque?, cases)] for every zero/truth obligation of witness fn.

    abstract: values that leave a loop are fresh symbols; vg_loop(k) / vg_next(k) in the witness stand for the
    value of some loop variable and its value one iteration later, and the witness must hold for some choice
    of distinct loop variables."""
    if not abstract:
        return decide1(VG(fn, pure), generic)
    slots = sorted({c.ops[0][1] for b in fn.blocks for c in b if c.op == 'call' and c.callee in ('vg_loop', 'vg_next', 'vg_out')})
    nxt = {c.ops[0][1] for b in fn.blocks for c in b if c.op == 'call' and c.callee == 'vg_next'}
    back = {(x, L['header']) for L in fn.loops for x in L['latches']}
    onl = {c.ops[0][1] for b in fn.blocks for c in b if c.op == 'call' and c.callee == 'vg_out'}
    heads = [d.id for b in fn.rpo for d in fn.blocks[b] if d.op == 'phi' and d.ty == 'double'
             and any((p, b) in back for _, p in d.incoming)]
    outs = [i for i in sorted(latched(fn)) if fn.insts[i].ty == 'double']
    import itertools
    cands = list(dict.fromkeys(outs + heads))
    best = None
    for m in itertools.permutations(cands, len(slots)):
        lv = dict(zip(slots, m))
        if any(lv[k] not in heads for k in nxt) or any(lv[k] not in outs for k in onl):
            continue
        r = decide1(VG(fn, pure, True, lv), generic)
        if all(x[0] for x in r):
            return r
        n = sum(x[0] for x in r)
        if best is None or n > best[0]:
            best = (n, [(x[0], x[1], x[2], False, x[4]) for x in r])
    if best is None:
        raise AnalysisError('%s: no loop variables to match' % fn.name)
    return best[1]


def decide1(g, generic=False):
    need, obs = TRUE, []
    for kind, i in g.obligations():
        if kind == 'want':
            obs += [('zero:' + t, i, v, r) for v, r, t in g.wanted(i)]
            continue
        v = g.op(i.ops[0])
        r = g.reachb(i.bb)
        if kind == 'need':
            v = apply2(v, lambda p: cmpleaf(p, 'eq', True))
            need = band(need, bor(bnot(r), bnot(v)))
        else:
            obs.append((kind, i, v, r))
    out, exits = [], g.exits()
    # a read or write whose format is not known: what the files hold is not known either
    names = {c.callee or '' for b in g.fn.blocks for c in b if c.op == 'call'}
    raw = any('scanf' in c or c in ('fprintf', 'snprintf', 'sprintf', 'vfprintf') for c in names) and \
        any(c.startswith(('vg_open', 'vg_want', 'vg_total')) for c in names)
    for kind, i, v, r in obs:
        if kind == 'truth':
            v = apply(lambda p: padd(ONE, p, -1), v)
        n = ite(band(r, need), v, FALSE)
        bad = None
        cnt = 0
        for path, p in leaves(n, (), generic):
            cnt += 1
            if is_zero(p):
                continue
            p = simplify_path(path, p)
            if p is not None and not is_zero(p) and not vanishes(path, p) and not polyhedron_empty(path):
                bad = (path, p)
                break
        if bad is None:
            out.append((True, i, '', False, cnt))
        else:
            p = reduce(bad[1])
            m = '%sresidual %s%s' % (kind[5:] + ': ' if kind.startswith('zero:') else '', text(p), (' when ' + pathtext(bad[0])) if bad[0] else '')
            op = bool(opaque_atoms(p)) or any(opaque_atoms(CONDS[c][1]) for c, v in bad[0] if isinstance(CONDS[c][1], tuple) and (c, v) not in exits)
            out.append((False, i, m, op or raw, cnt))
    return out
