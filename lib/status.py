"""C04: a failed read/open/called operation reaches the caller as the documented failure value."""
from engine import *
from ir import UNROLLED, load, AnalysisError
from resources import order

SCAN = ('__isoc99_fscanf', 'fscanf', '__isoc99_sscanf', 'sscanf')
# Documented failure value of every status-returning function (headers / doc comments).
FAIL = {
    'read_sequence_par': 'null', 'read_track_par': 'null', 'read_volume_par': 'null', 'read_control_par': 'null',
    'read_target_par': 'null', 'read_orient_par': 'null', 'read_sortgrid_par': 0, 'read_calblock': 'null',
    'read_ori': 0, 'write_ori': 0, 'read_calibration': 'null', 'write_calibration': 0,
    'read_targets': -1, 'write_targets': 0, 'read_path_frame': -1, 'write_path_frame': 0,
    'read_frame': 0, 'write_frame': 0, 'fb_disk_read_frame_at_end': 0, 'fb_disk_write_frame_from_start': 0,
    'fb_read_frame_at_end': 0, 'fb_write_frame_from_start': 0, 'read_man_ori_fix': 0,
    'prepare_image': 0, 'fast_box_blur': 0, 'tr_new_legacy': 'null',
    'safely_allocate_target_usage_marks': 'null', 'safely_allocate_adjacency_lists': 0,
}
# files a caller may leave out: opening them may fail without the read failing
OPTIONAL_OPEN = {('read_ori', 5): 'the added-parameters file is optional: fallback file, then defaults',
                 ('read_ori', 6): 'the fallback file is optional: defaults'}
# reading until end of file: EOF at the start of a record ends the list
EOF_ENDS = {'read_calblock': 'the list of points ends at end of file'}
# write errors reported by this writer
PRINT_CHECKED = {'write_targets'}


def nconv(fmt):
    n, i = 0, 0
    while i < len(fmt):
        if fmt[i] == '%':
            i += 1
            if i < len(fmt) and fmt[i] == '%':
                i += 1
                continue
            sup = False
            while i < len(fmt) and (fmt[i].isdigit() or fmt[i] in '*hlLjztq'):
                if fmt[i] == '*':
                    sup = True
                i += 1
            if i < len(fmt) and fmt[i] == '[':
                i += 1
                if i < len(fmt) and fmt[i] == '^':
                    i += 1
                if i < len(fmt) and fmt[i] == ']':
                    i += 1
                while i < len(fmt) and fmt[i] != ']':
                    i += 1
            if i < len(fmt) and fmt[i] not in 'n' and not sup:
                n += 1
        i += 1
    return n


class StatusClient(Client):
    keyvars = True

    def __init__(self):
        self.exits = []
        self.sources = {}
        self.handled = set()

    def taint(self, st, i, what):
        if not st.flags:
            st.flags = frozenset({(i.id, what)})
        return st

    def on_null(self, e, st, base):
        if base[0] == 'r':
            d = e.fn.insts[base[1]]
            if d.callee == 'fopen':
                if base[2] == 'opt':
                    return
                self.taint(st, d, 'the file cannot be opened')
            else:
                self.taint(st, d, 'memory cannot be allocated')

    def optional(self, e, st, i):
        """does the path operand come from an argument listed as optional?"""
        def origins(o, seen):
            if o[0] == 'a':
                return {o[1]}
            if o[0] == 'v' and o not in seen:
                seen.add(o)
                d = e.fn.insts[o[1]]
                if d.op == 'phi':
                    r = set()
                    for x, _ in d.incoming:
                        r |= origins(x, seen)
                    return r
                if d.op == 'select':
                    return origins(d.ops[1], seen) | origins(d.ops[2], seen)
                if d.op == 'getelementptr':
                    return {None}
            if o[0] == 'null':
                return set()
            return {None}
        r = origins(i.ops[0], set())
        return bool(r) and all((e.fn.name, a) in OPTIONAL_OPEN for a in r)

    def call(self, e, st, i):
        c = i.callee
        if c in SCAN:
            k = 1
            fmt = e.fn.mod.string(i.ops[k])
            if fmt is None:
                raise AnalysisError('%s: scan format is not a constant' % i.where())
            n = nconv(fmt)
            self.sources[i.id] = i
            for o in i.ops[k + 1:]:
                p = e.val(st, o)
                if p[0] == 'p':
                    for kk in list(st.mem):
                        if kk[0] == p[1] and (kk[1] == p[2] or p[2] is None):
                            st.mem[kk] = TOP if kk[2] == 'ptr' else ty_top(kk[2])
            st.alias.pop(i.id, None)
            out = []
            s = st.copy(); s.env[i.id] = I(n); out.append(s)
            s = st.copy(); s.env[i.id] = I(-1)
            if e.fn.name not in EOF_ENDS:
                self.taint(s, i, 'the file ends before this value')
            out.append(s)
            if n > 0:
                s = st.copy(); s.env[i.id] = I(0, n - 1)
                out.append(self.taint(s, i, 'the text does not match the expected format'))
            return out
        if c in ('fopen', 'fopen64'):
            self.sources[i.id] = i
            b = ('r', i.id, 'opt' if self.optional(e, st, i) else 'f')
            st.env[i.id] = ('p', b, 0); st.nul[b] = 2; st.res[b] = 'live'
            return [st]
        if c in ('malloc', 'calloc'):
            b = ('r', i.id, 'm'); self.sources[i.id] = i
            # references to an earlier block from the same site are stale
            for k, v in list(st.env.items()):
                if v[0] == 'p' and v[1] == b:
                    st.env[k] = TOP
            for k, v in list(st.mem.items()):
                if v[0] == 'p' and v[1] == b:
                    st.mem[k] = TOP
            st.env[i.id] = ('p', b, 0); st.nul[b] = 2
            return [st]
        if c == 'realloc':
            st.env[i.id] = ('p', ('r', i.id, 'm'), 0); st.nul[('r', i.id, 'm')] = 0
            return [st]
        if c == 'snprintf':
            sz = e.val(st, i.ops[1])
            if sz[0] == 'i' and sz[1] == sz[2]:
                self.sources[i.id] = i
                s = st.copy(); s.env[i.id] = I(0, sz[1] - 1)
                t = st.copy(); t.env[i.id] = I(sz[1], (1 << 31) - 1)
                return [s, self.taint(t, i, 'the name does not fit the buffer')]
        if c == 'fprintf' and e.fn.name in PRINT_CHECKED:
            self.sources[i.id] = i
            s = st.copy(); s.env[i.id] = I(1, (1 << 31) - 1)
            t = st.copy(); t.env[i.id] = I(-(1 << 31), 0)
            return [s, self.taint(t, i, 'writing fails')]
        if c in ('fprintf', 'printf', 'puts', 'fclose', 'feof', 'free'):
            if i.ty and i.ty != 'void':
                st.env[i.id] = ty_top(i.ty)
            return [st]
        tgt = c
        if c is None and e.fn.name in ('fb_read_frame_at_end', 'fb_write_frame_from_start'):
            tgt = 'fb_disk_read_frame_at_end'
        if tgt in FAIL:
            self.sources[i.id] = i
            e.default_call(st, i)
            f = FAIL[tgt]
            s = st.copy(); t = st.copy()
            if f == 'null':
                b = ('c', i.id)
                s.nul[b] = 0
                t.env[i.id] = NULL
                # a reader that fails sets its counts to the documented 0
                if tgt == 'read_calblock':
                    p = e.val(t, i.ops[0])
                    if p[0] == 'p':
                        t.mem[(p[1], p[2], 'i32')] = I(0)
            else:
                t.env[i.id] = I(f)
                if f == 0:
                    s.env[i.id] = ('i', -INF, INF, True) if tgt in ('read_man_ori_fix', 'read_sortgrid_par') else I(1)
                elif f == -1:
                    s.env[i.id] = I(0, (1 << 31) - 1)
            return [s, self.taint(t, i, '%s() reports a failure' % tgt)]
        return None

    def ret(self, e, st, i, v):
        self.exits.append((st.flags, v, i, st))


def overlaps(f, v, e, st):
    """True if the returned value is certainly/possibly something other than the failure value."""
    if v is None:
        return False
    if f == 'null':
        return e.isnull(st, v) != 1
    return not (v[0] == 'i' and v[1] == v[2] == f)


_c = {}


def analyse():
    if 'r' in _c:
        return _c['r']
    mod = load(**UNROLLED)
    viol, inst, obl, voids = [], [], 0, []
    for f in order(mod):
        c = StatusClient()
        e = Engine(f, c)
        e.run()
        has = bool(c.sources)
        if f.name in FAIL:
            fv = FAIL[f.name]
            if not has:
                raise AnalysisError('%s: no fallible operation found (anchor vanished)' % f.name)
            good = False
            for flags, v, i, st in c.exits:
                if flags:
                    obl += 1
                    if overlaps(fv, v, e, st):
                        sid, what = sorted(flags)[0]
                        s = c.sources.get(sid) or f.insts[sid]
                        e.report('failure-swallowed', s, st, 'when %s, %s can still return a success value at %s'
                                 % (what, f.name, i.where()))
                else:
                    if overlaps(fv, v, e, st) or e.isnull(st, v) == 2 and fv == 'null':
                        good = True
            if not good:
                e.report('always-fails', None, None, '%s never returns a success value' % f.name)
            inst.append((f.name, fv, len(c.sources)))
        elif has and f.ret != 'void':
            pass
        elif has:
            voids.append(f.name)
        viol += list(e.viol.values())
    missing = [n for n in FAIL if n not in mod.funcs or mod.funcs[n].decl]
    if missing:
        raise AnalysisError('anchor vanished: ' + ', '.join(missing))
    _c['r'] = (mod, viol, inst, obl, voids)
    return _c['r']


if __name__ == '__main__':
    mod, viol, inst, obl, voids = analyse()
    for v in viol:
        print(v)
    print(len(inst), obl, voids)
