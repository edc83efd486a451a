"""C01: structure comparison is exact equality, field by field."""
from engine import *
from ir import load, AnalysisError
import vgcheck
from sym import *

# comparator -> (struct, leaves that the documentation leaves out)
TABLE = {
    'compare_sequence_par': ('sequence_par', {}),
    'compare_track_par': ('track_par', {}),
    'compare_volume_par': ('volume_par', {}),
    'compare_control_par': ('control_par', {}),
    'compare_mm_np': ('mm_np', {'n2[1]': 0, 'n2[2]': 0, 'd[1]': 0, 'd[2]': 0}),
    'compare_target_par': ('target_par', {}),
    'compare_exterior': ('Exterior', {}),
    'compare_interior': ('Interior', {}),
    'compare_glass': ('Glass', {}),
    'compare_addpar': ('ap_52', {}),
    'compare_calib': ('Calibration', {'mmlut': 'derived cache'}),
    'compare_targets': ('target', {}),
    'compare_corres': ('corres', {}),
    'compare_path_info': ('Pstruct', {}),
    'vec_cmp': (None, {}),
}
# string arrays: struct field -> number of entries field
STRARR = {('sequence_par', 'img_base_name'): 'num_cams', ('control_par', 'img_base_name'): 'num_cams',
          ('control_par', 'cal_img_base_name'): 'num_cams'}
SUB = {('control_par', 'mm'): ('mm_np', ('n2[1]', 'n2[2]', 'd[1]', 'd[2]'))}
NAME_MAX = 239


class Cmp(Client):
    once = True
    keyvars = True

    def __init__(self):
        self.exits = []

    def key(self, fn, o):
        """('mem', addr, size) for a value read from memory."""
        o = strip_ext(fn, o)
        if o[0] == 'v' and fn.insts[o[1]].op == 'load':
            d = fn.insts[o[1]]
            return addr(fn, d.ops[0]), d.ty
        return None

    def fact(self, e, st, d, truth):
        fn = e.fn
        f = None
        if d.op == 'icmp' and d.pred in ('eq', 'ne') or d.op == 'fcmp' and d.pred in ('oeq', 'une', 'ueq', 'one'):
            eq = (d.pred in ('eq', 'oeq')) == truth if d.pred != 'ueq' and d.pred != 'one' else None
            if eq is None:
                return
            a, b = self.key(fn, d.ops[0]), self.key(fn, d.ops[1])
            if a and b and a[1] == b[1]:
                f = self.pair(a[0], b[0])
                if f:
                    st.flags = st.flags | {('eq' if eq else 'ne', 'mem', f, a[1])}
                return
            # strcmp/strncmp(...) == 0
            for x, y in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
                if y == ('i', 0) and x[0] == 'v' and fn.insts[x[1]].op == 'call':
                    c = fn.insts[x[1]]
                    if c.callee in ('strcmp', 'strncmp', 'memcmp'):
                        A, B = addr(fn, c.ops[0]), addr(fn, c.ops[1])
                        f = self.pair(A, B)
                        if not f:
                            return
                        n = None
                        if c.callee != 'strcmp':
                            if c.ops[2][0] != 'i':
                                return
                            n = c.ops[2][1]
                        if c.callee == 'memcmp':
                            st.flags = st.flags | {('eq' if eq else 'ne', 'bytes', f, n)}
                            return
                        if not eq:
                            st.flags = st.flags | {('ne', 'str', f, n)}
                        elif n is None or n >= NAME_MAX:
                            st.flags = st.flags | {('eq', 'str', f, n)}

    def pair(self, a, b):
        for x, y in ((a, b), (b, a)):
            if root(x) == ('arg', 0) and root(y) == ('arg', 1) and swaproot(y, 1, 0) == x:
                return x
        return None

    def edge(self, e, st, pred, succ):
        pass

    def ret(self, e, st, i, v):
        for truth in (True, False):
            for s in e.refine_int(st.copy(), i.ops[0], 'ne' if truth else 'eq', I(0), 0):
                self.exits.append((truth, s.flags, i))

    def call(self, e, st, i):
        if i.callee in ('strcmp', 'strncmp', 'memcmp', 'fabs', 'llvm.fabs.f64'):
            st.env[i.id] = ty_top(i.ty)
            return [st]
        return None


class CmpEngine(Engine):
    def branch(self, b, st, i):
        res = Engine.branch(self, b, st, i)
        L = self.headers.get(b)
        if L is not None:
            bl = set(L['blocks'])
            ids = {x.id for x in self.fn.blocks[b] if x.op == 'phi'}
            for succ, s in res:
                if succ in bl:   # a new iteration: facts about this iteration's element are not known yet
                    s.flags = frozenset(f for f in s.flags if not mentions(f[2], ids))
        return res


def mentions(a, ids):
    for o, sc in a[2]:
        if o[0] == 'v' and o[1] in ids:
            return True
    return a[0][0] == 'ld' and mentions(a[0][1], ids)


def expand(fn, a, ranges):
    """offsets covered by an address with bounded loop indices: list of ints, or None."""
    b, c, vo = a
    offs = [c]
    for o, sc in vo:
        r = ranges.get(o[1]) if o[0] == 'v' else None
        if r is None:
            return None
        (fl, fc), (bl, bc), step = r
        if fl or bl:
            return None
        rng = range(fc, bc, 1) if step == 1 else range(fc, bc - 1, -1)
        if len(rng) > 100000:
            return None
        offs = [x + sc * k for x in offs for k in rng]
    return offs


def structural():
    mod = load(inline=tuple(TABLE))
    viol, obligations, discharged, insts = [], 0, 0, []
    for name, (struct, excl) in TABLE.items():
        fn = mod.fn(name)
        c = Cmp()
        e = CmpEngine(fn, c)
        e.run()
        ranges = {}
        for L in fn.loops:
            ranges.update(loop_range(fn, L))
        if struct:
            if struct not in mod.ditypes:
                raise AnalysisError('struct %s vanished' % struct)
            leaves = [(p, o, t) for p, o, t in mod.leaves('%' + struct)
                      if not any(p == x or p.startswith(x + '.') or p.startswith(x + '[') for x in excl)]
        else:
            leaves = [('[%d]' % k, 8 * k, 'double') for k in range(3)]
        insts.append('%s: %d fields' % (name, len(leaves)))
        nc = None
        if struct:
            for p, o, t in leaves:
                if p == 'num_cams':
                    nc = o
        for truth, facts, i in c.exits:
            eqb, eqsub, eqstr = set(), {}, set()
            for kind, what, a, x in facts:
                if kind != 'eq':
                    continue
                if what in ('mem', 'bytes') and a[0] == ('arg', 0):
                    offs = expand(fn, a, ranges)
                    if offs is not None:
                        if what == 'bytes':
                            offs = [o + k for o in offs for k in range(x)]
                        eqb.update(offs)
                elif what in ('mem', 'bytes') and a[0][0] == 'ld' and a[0][1][0] == ('arg', 0) and not a[0][1][2]:
                    offs = expand(fn, a, ranges)
                    if offs is not None:
                        if what == 'bytes':
                            offs = [o + k for o in offs for k in range(x)]
                        eqsub.setdefault(a[0][1][1], set()).update(offs)
                elif what == 'str':
                    # strings in an array of names: base = *( *(arg+off) + 8*iv )
                    if a[0][0] == 'ld' and a[1] == 0 and not a[2]:
                        el = a[0][1]
                        if el[0][0] == 'ld' and el[0][1][0] == ('arg', 0) and not el[0][1][2] and el[1] == 0 \
                                and len(el[2]) == 1 and el[2][0][1] == 8 and el[2][0][0][0] == 'v':
                            r = ranges.get(el[2][0][0][1])
                            if r and full_count(fn, r, nc):
                                eqstr.add(el[0][1][1])
            if truth:
                for p, o, t in leaves:
                    obligations += 1
                    if (struct, p) in STRARR:
                        ok = o in eqstr
                    elif (struct, p) in SUB:
                        sub, ex = SUB[(struct, p)]
                        miss = [q for q, so, _ in mod.leaves('%' + sub) if q not in ex and so not in eqsub.get(o, ())]
                        ok = not miss
                        if miss:
                            p = p + '->' + miss[0]
                    else:
                        ok = o in eqb
                    if ok:
                        discharged += 1
                    else:
                        e.report('field-not-compared', i, None,
                                 '%s can report equality without having established that field %s is equal'
                                 % (name, p), site=name + p)
            else:
                obligations += 1
                if any(k == 'ne' for k, *_ in facts):
                    discharged += 1
                else:
                    e.report('false-inequality', i, None, '%s can report a difference on a path where no field was '
                             'found to differ' % name, site=name)
        if not any(t for t, _, _ in c.exits):
            e.report('never-equal', None, None, '%s can never report equality' % name)
        if not any(not t for t, _, _ in c.exits):
            e.report('never-different', None, None, '%s can never report a difference' % name)
        viol += list(e.viol.values())
    return dict(violations=viol, coverage=dict(
        explanation='On every path of each comparison function (helpers inlined, element loops summarised by their '
                    'index range) the pairs of fields tested equal/different are collected; a path that reports '
                    'equality must have tested every field of the structure, a path that reports a difference must '
                    'have found one.', comparators=len(TABLE), obligations=obligations, discharged=discharged,
        samples=insts), assumptions=['names are at most 239 characters (that is all the readers accept)'])


def prefixes(mod):
    """names compared only up to the end of one of the two: 'cam' and 'cam1' would be the same name."""
    viol, sites = [], 0
    for name in TABLE:
        fn = mod.fn(name)
        calls = [i for i in fn.insts.values() if i.op == 'call' and i.callee in ('strncmp', 'memcmp', 'strlen', 'strcmp')]
        lens = [i for i in calls if i.callee == 'strlen']
        for i in calls:
            if i.callee not in ('strncmp', 'memcmp'):
                continue
            sites += 1
            n = strip_ext(fn, i.ops[2])
            d = fn.insts[n[1]] if n[0] == 'v' else None
            if d is None or d.op != 'call' or d.callee != 'strlen':
                continue
            x = addr(fn, d.ops[0])
            sides = [addr(fn, o) for o in i.ops[:2]]
            if x not in sides or sides[0] == sides[1]:
                continue
            # another test on the other string (its length, another comparison) may make the two one name
            other = sides[1 - sides.index(x)]
            if any(c is not i and c is not d and any(addr(fn, o) == other for o in c.ops[:2] if o[0] == 'v') for c in calls):
                continue
            if any(a.op == 'load' and a.ty == 'i8' and root(addr(fn, a.ops[0])) == root(other) for a in fn.insts.values()):
                continue
            viol.append(dict(rule='name-prefix', function=name, file=fn.file, site=i.where(),
                             detail='%s compares a name only up to the end of the other: a longer name that begins '
                                    'with it counts as equal' % name))
    return viol, sites


def full_count(fn, r, nc):
    (fl, fc), (bl, bc), step = r

    def isnc(l, c):
        if c != 0 or len(l) != 1:
            return False
        (o, k), = l.items()
        if k != 1 or o[0] != 'v' or fn.insts[o[1]].op != 'load':
            return False
        a = addr(fn, fn.insts[o[1]].ops[0])
        return a[0] in (('arg', 0), ('arg', 1)) and a[1] == nc and not a[2]
    if step == 1:
        return not fl and fc == 0 and isnc(bl, bc)
    return not bl and bc == 0 and (isnc(fl, fc + 1))




def run(tier):
    """The result of each comparator as a decision diagram over the field equalities (1..4 cameras), and, for any number of
    cameras, the facts collected on every path; a path fact that is missing counts only where the diagram finds a fault."""
    v = vgcheck.run([('cmp', '.')], 'comparison')
    s = structural()
    bad = {f for x in v['violations'] for f in x['function'].split(', ')}
    extra = [x for x in s['violations'] if x['function'] in bad]
    proved = sorted(set(TABLE) - {x['function'] for x in s['violations']})
    cov = dict(s['coverage'])
    for k in ('witnesses', 'decided', 'undecided', 'undecided_list'):
        cov['diagram_' + k] = v['coverage'][k]
    cov['diagram_obligations'] = v['coverage']['obligations']
    cov['for_any_number_of_cameras'] = proved
    pre, cov['bounded_name_comparisons'] = prefixes(load(inline=tuple(TABLE)))
    return dict(violations=v['violations'] + extra + pre, coverage=cov, assumptions=s['assumptions'] + v['assumptions'])


if __name__ == '__main__':
    r = run('quick')
    for v in r['violations']:
        print(v)
    print({k: v for k, v in r['coverage'].items()})
