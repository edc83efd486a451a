"""Symbolic addresses and loop ranges over the IR (no evaluation)."""


def strip_ext(fn, o):
    while o[0] == 'v':
        d = fn.insts[o[1]]
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            o = d.ops[0]
        else:
            break
    return o


def affine(fn, o, depth=0):
    """operand -> (dict operand->coef, const): linear form over opaque SSA operands."""
    o = strip_ext(fn, o)
    if o[0] == 'i':
        return {}, o[1]
    if o[0] == 'v' and depth < 30:
        d = fn.insts[o[1]]
        if d.op in ('add', 'sub', 'or') and d.ty != 'i1':
            if d.op == 'or':
                return {o: 1}, 0
            a, ca = affine(fn, d.ops[0], depth + 1)
            b, cb = affine(fn, d.ops[1], depth + 1)
            s = 1 if d.op == 'add' else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v}, ca + s * cb
        if d.op == 'mul':
            a, ca = affine(fn, d.ops[0], depth + 1)
            b, cb = affine(fn, d.ops[1], depth + 1)
            if not a:
                return ({k: v * ca for k, v in b.items()} if ca else {}), cb * ca
            if not b:
                return ({k: v * cb for k, v in a.items()} if cb else {}), ca * cb
        if d.op == 'shl':
            b, cb = affine(fn, d.ops[1], depth + 1)
            if not b and 0 <= cb < 31:
                a, ca = affine(fn, d.ops[0], depth + 1)
                return {k: v << cb for k, v in a.items()}, ca << cb
    return {o: 1}, 0


def iv_info(fn, L):
    """{phi id: (init operand, step)} for the header phis of loop L."""
    out = {}
    blocks = set(L['blocks'])
    for i in fn.blocks[L['header']]:
        if i.op != 'phi':
            break
        init = None; step = None; ok = True
        for o, b in i.incoming:
            if b in blocks:
                lin, c = affine(fn, o)
                if lin == {('v', i.id): 1} and (step is None or step == c):
                    step = c
                else:
                    ok = False
            else:
                if init is not None and init != o:
                    ok = False
                init = o
        if ok and step and init is not None:
            out[i.id] = (init, step)
    return out


def loop_range(fn, L):
    """{phi id: (first affine, bound affine exclusive-last+1, step)} from the header exit test, or {}.

    The iteration covers first, first+step, ... while `iv < bound` (step 1) or `iv >= bound` (step -1)."""
    ivs = iv_info(fn, L)
    blocks = set(L['blocks'])
    t = fn.blocks[L['header']][-1]
    if t.op != 'br' or len(t.succ) != 2:
        return {}
    ins = [s in blocks for s in t.succ]
    if ins[0] == ins[1]:
        return {}
    stay = ins[0]
    c = t.ops[0]
    d = fn.insts.get(c[1]) if c[0] == 'v' else None
    if d is None or d.op != 'icmp':
        return {}
    from engine import NEG, SWP
    p = d.pred if stay else NEG[d.pred]
    res = {}
    for a, b, pp in ((d.ops[0], d.ops[1], p), (d.ops[1], d.ops[0], SWP[p])):
        lin, k = affine(fn, a)
        if len(lin) == 1:
            (v, co), = lin.items()
            if v[0] == 'v' and v[1] in ivs and co == 1:
                init, step = ivs[v[1]]
                bl, bc = affine(fn, b)
                fl, fc = affine(fn, init)
                bc -= k                      # iv pp bound - k
                if step == 1 and pp in ('slt', 'ult', 'ne'):
                    res[v[1]] = ((fl, fc), (bl, bc), 1)
                elif step == 1 and pp in ('sle', 'ule'):
                    res[v[1]] = ((fl, fc), (bl, bc + 1), 1)
                elif step == -1 and pp in ('sge', 'uge'):
                    res[v[1]] = ((fl, fc), (bl, bc), -1)
                elif step == -1 and pp in ('sgt', 'ugt', 'ne'):
                    res[v[1]] = ((fl, fc), (bl, bc + 1), -1)
    # derived: other header phis that move in step with a bounded one are left out
    return res


def addr(fn, o, depth=0):
    """pointer operand -> (base, const, ((iv operand, scale), ...)); base = ('arg', n) | ('alloca', id) |
    ('ld', addr) | ('g', name) | ('v', id)."""
    if o[0] == 'a':
        return (('arg', o[1]), 0, ())
    if o[0] == 'g':
        return (('g', o[1]), 0, ())
    if o[0] == 'null':
        return (('null',), 0, ())
    if o[0] == 'ce':
        g = o[1].get('gep')
        if g and not g.get('vo'):
            b = addr(fn, tuple(o[1]['ops'][0]))
            return (b[0], b[1] + g.get('co', 0), b[2])
        return (('ce', repr(o[1])), 0, ())
    if o[0] != 'v' or depth > 40:
        return ((o[0], repr(o)), 0, ())
    d = fn.insts[o[1]]
    if d.op == 'getelementptr' and d.gep and 'co' in d.gep:
        b, c, vo = addr(fn, d.ops[0], depth + 1)
        lin = dict(vo)
        c += d.gep['co']
        for x, sc in d.gep.get('vo', []):
            l, k = affine(fn, tuple(x))
            c += k * sc
            for v, co in l.items():
                lin[v] = lin.get(v, 0) + co * sc
        return (b, c, tuple(sorted((k, v) for k, v in lin.items() if v)))
    if d.op == 'load':
        return (('ld', addr(fn, d.ops[0], depth + 1)), 0, ())
    if d.op == 'alloca':
        return (('alloca', d.id), 0, ())
    if d.op in ('bitcast', 'freeze'):
        return addr(fn, d.ops[0], depth + 1)
    if d.op == 'phi':
        return (('v', d.id), 0, ())
    return (('v', d.id), 0, ())


def root(a):
    b = a[0]
    while b[0] == 'ld':
        b = b[1][0]
    return b


def swaproot(a, frm, to):
    """the same address with its root argument replaced."""
    b, c, vo = a
    if b == ('arg', frm):
        return (('arg', to), c, vo)
    if b[0] == 'ld':
        return (('ld', swaproot(b[1], frm, to)), c, vo)
    return a
