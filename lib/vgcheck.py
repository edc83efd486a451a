"""Run witness obligations (lib/wit/*.c) through the value-graph engine, in parallel."""
import os, re, resource, signal, sys, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import vg
from ir import AnalysisError, VERIF, keep_default

_mods = {}
VG_PARTS = {}     # files loaded in parts: many small witnesses
START, LIMIT, EACH = time.time(), 780, 420      # seconds: whole check, one witness


class Late(Exception):
    pass


def late(*a):
    raise Late('no decision within the time given')


def source(name):
    return open(os.path.join(VERIF, 'lib', 'wit', name + '.c')).read()


def names(name):
    return re.findall(r'^\w+\s+(W_\w+)\(', source(name), re.M)


def site(name, w, line):
    """the witness line, and the library functions the witness (or its file's helpers) calls."""
    src = source(name).split('\n')
    keep = set(keep_default())
    i = next(k for k, l in enumerate(src) if re.match(r'^\w+\s+%s\(' % w, l))

    def body(i):
        out = [src[i]]
        if not src[i].rstrip().endswith('}'):
            for l in src[i + 1:]:
                out.append(l)
                if l.startswith('}'):
                    break
        return '\n'.join(out)
    def macro(k):
        out = [src[k]]
        while out[-1].endswith('\\'):
            k += 1
            out.append(src[k])
        return '\n'.join(out)
    b = body(i)
    seen, work, fns = set(), [b], []
    while work:
        t = work.pop()
        for c in re.findall(r'\b(\w+)\(', t):
            if c in seen:
                continue
            seen.add(c)
            if c in keep:
                fns.append(c)
            else:
                for k, l in enumerate(src):
                    if re.match(r'^(static|#define)\b.*\b%s\(' % re.escape(c), l):
                        work.append(body(k) if l.startswith('static') else macro(k))
    stub = set(re.findall(r'^(?!static|#)[\w ]+?\*?\s*\*?(\w+)\([^;]*\{', source(name), re.M))
    fns = [f for f in fns if f not in stub] or fns
    txt = src[line - 1].strip() if 0 < line <= len(src) else ''
    return fns, txt[:160]


def one(job):
    name, w, lp, part = job
    sys.setrecursionlimit(20000)
    t = time.time()
    key = (name, lp, part)
    left = min(90 if VG_PARTS.get(name) else EACH, LIMIT - (t - START))
    if left < 1:
        return name, w, None, 'not started within the time given', 0
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(left))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        if key not in _mods:
            return name, w, None, 'no decision within the time given (loading)', 0
        r = vg.decide(_mods[key].fn(w), generic='_g_' in w, abstract=lp)
    except (AnalysisError, RecursionError, KeyError, ValueError, IndexError, TypeError, OverflowError, MemoryError, Late) as x:
        return name, w, None, '%s: %s' % (type(x).__name__, str(x)[:200]), time.time() - t
    finally:
        signal.alarm(0)
    return name, w, [(ok, i.line, m, op, c) for ok, i, m, op, c in r], '', time.time() - t


def run(spec, rule):
    """spec: [(witness file, regex of witness names)]; rule: name of the rule in reports."""
    jobs, loads = [], []
    for f, rx in spec:
        ws = [w for w in names(f) if re.search(rx, w)]
        if not ws:
            raise AnalysisError('no witnesses %s in %s' % (rx, f))
        for lp in sorted({'_lp_' in w for w in ws}):
            k = re.search(r'VG_PARTS (\d+)', source(f))
            n = VG_PARTS[f] = int(k.group(1)) if k else 1
            if n == 1:
                del VG_PARTS[f]
            wl = [w for w in ws if ('_lp_' in w) == lp]
            for part in range(n):
                mine = wl[part::n]
                if mine:
                    loads.append((f, lp, part, tuple(mine) if n > 1 else None))
                    jobs += [(f, w, lp, part) for w in mine]
    def get(x):
        f, lp, part, only = x
        try:
            _mods[x[:3]] = vg.witness(f, lcssa=lp, io=f.startswith('io'), only=only)[0]
        except AnalysisError as e:
            if 'time given' not in str(e):
                raise
    with ThreadPoolExecutor(6) as ex:           # loaded before the workers fork
        list(ex.map(get, loads))
    heavy = {'W_box_left_xy': 0, 'W_box_up_xy': 1}
    jobs.sort(key=lambda j: heavy.get(j[1], 9))
    with ProcessPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, jobs, chunksize=1))
    viol, und, nob, dec, cases = [], [], 0, 0, 0
    for name, w, r, err, t in res:
        if r is None:
            und.append('%s: %s' % (w, err))
            continue
        if not r:
            und.append('%s: no obligations' % w)
        for ok, line, m, op, c in r:
            nob += 1
            cases += c
            if ok:
                dec += 1
                continue
            fns, txt = site(name, w, line)
            if op:
                und.append('%s:%d: %s' % (w, line, m[:200]))
                continue
            viol.append(dict(rule=rule, function=', '.join(fns), site='lib/wit/%s.c:%d (%s): %s' % (name, line, w, txt),
                             detail='does not hold for the code: ' + m[:400]))
            dec += 1
    cov = dict(witnesses=len(jobs), obligations=nob, decided=dec, undecided=len(und), path_cases=cases,
               witness_names=[j[1] for j in jobs], undecided_list=und[:20], rule=rule,
               functions=sorted({f for j in jobs for f in site(j[0], j[1], 0)[0]}))
    return dict(violations=viol, coverage=cov, assumptions=ASSUME)


ASSUME = ['arithmetic over the real numbers: rounding and overflow are outside the claim',
          'arguments that point to separate objects do not overlap',
          'witness files lib/wit/*.c state the property; clang compiles them together with the library source']
