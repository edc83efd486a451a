"""Functions modify only their documented outputs (lib/outputs.spec)."""
import os, re
import ir, modref


def spec():
    out = {}
    for l in open(os.path.join(os.path.dirname(__file__), 'outputs.spec')):
        if l.startswith('#') or not l.strip():
            continue
        p = l.split()
        out[p[0]] = [tuple(x.split(':', 1)) for x in p[1:]]
    return out


def run(tier):
    mod = ir.load(**ir.UNROLLED)
    S = modref.summaries(mod)
    viol, nfn, nloc = [], 0, 0
    sp = spec()
    gone = []
    for n, allowed in sorted(sp.items()):
        s = S.get(n)
        if s is None:
            gone.append(n)
            continue
        nfn += 1
        ok = {}
        for k, p in allowed:
            ok.setdefault(int(k), []).append('' if p == '-' else p)
        for loc, i in sorted(s.mods.items(), key=lambda x: str(x[0])):
            if loc[0] != 'arg':
                continue
            nloc += 1
            nm = s.fn.argname.get(loc[1]) or 'arg%d' % loc[1]
            p = modref.text(s.fn, loc)[len(nm):]
            if covered(mod, s, loc, p, ok.get(loc[1], [])):
                continue
            what = 'parameter %s' % nm if loc[1] not in ok else '%s%s' % (nm, p)
            viol.append(dict(rule='output-only-writes', function=n, site=i.where(),
                             detail='%s modifies %s (%s%s), which is input%s' % (
                                 n, what, nm, p, ' - through %s()' % i.callee if i.callee and i.op == 'call' else '')))
    cov = dict(functions=nfn, modified_locations=nloc, functions_not_present=gone, rule='mod set within lib/outputs.spec')
    return dict(violations=viol, coverage=cov, assumptions=[
        'writes through the frame buffer\'s function table are attributed to the fb_disk_* functions, not to callers',
        'array elements are merged; distinct fields are kept apart by debug info'])


def covered(mod, s, loc, p, allowed):
    for a in allowed:
        if p == a or a == '' or p.startswith(a + '.') or p.startswith(a + '->'):
            return True
    # a whole object, all of whose fields are outputs
    t = s.types.get(loc, '?')
    if t.startswith('%') and t[1:] in mod.ditypes:
        return all(any(p + '.' + m[0] == a or a == p + '.' + m[0] for a in allowed) for m in mod.ditypes[t[1:]]['members'])
    return False
