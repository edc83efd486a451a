"""The library keeps no state between calls, is deterministic, and never ends or disturbs the process."""
import ir

STD = {'stdout', 'stderr', 'stdin'}
BAD = {
    'exit': 'ends the process', '_exit': 'ends the process', 'abort': 'ends the process', 'quick_exit': 'ends the process',
    '__assert_fail': 'ends the process', 'raise': 'signals the process', 'kill': 'signals a process', 'signal': 'changes signal handling',
    'longjmp': 'jumps out of the call', 'rand': 'random', 'srand': 'random', 'rand_r': 'random', 'random': 'random',
    'srandom': 'random', 'drand48': 'random', 'time': 'depends on the clock', 'clock': 'depends on the clock',
    'gettimeofday': 'depends on the clock', 'clock_gettime': 'depends on the clock', 'getpid': 'depends on the process',
    'getenv': 'depends on the environment', 'setenv': 'changes the environment', 'putenv': 'changes the environment',
    'setlocale': 'changes the locale', 'chdir': 'changes the working directory', 'system': 'runs a command', 'popen': 'runs a command',
    'fork': 'forks', 'strtok': 'keeps hidden state', 'scanf': 'reads standard input', '__isoc99_scanf': 'reads standard input',
    '__isoc23_scanf': 'reads standard input', 'getchar': 'reads standard input', 'gets': 'reads standard input',
    'atexit': 'registers a handler', 'pthread_create': 'starts a thread', 'usleep': 'waits', 'sleep': 'waits',
    'fesetround': 'changes the rounding mode', 'feenableexcept': 'changes floating point traps', 'remove': 'removes files',
    'unlink': 'removes files', 'rename': 'renames files', 'freopen': 'redirects a stream', 'llvm.trap': 'ends the process',
}


def run(tier):
    mod = ir.load()
    viol, ng, nc = [], 0, 0
    mutable = set()
    for n, g in sorted(mod.globals.items()):
        if n in STD or g.get('decl'):
            continue
        ng += 1
        if not g.get('const') and not n.startswith('llvm.'):
            mutable.add(n)
    users = {}

    def ops(o, out):
        if not o:
            return
        if o[0] == 'g':
            out.add(o[1])
        elif o[0] == 'ce':
            for x in o[1].get('ops', []):
                ops(x, out)
    fns = mod.api()
    for f in fns:
        for i in f.all():
            s = set()
            for o in i.ops:
                ops(o, s)
            for o, _ in i.incoming:
                ops(o, s)
            for g in s & mutable:
                users.setdefault(g, []).append((f, i))
            if i.op == 'call':
                nc += 1
                if i.callee in BAD and not (i.callee == 'setlocale' and mod.string(i.ops[1]) == 'C'):
                    viol.append(dict(rule='no-process-effect', function=f.name, site=i.where(),
                                     detail='%s() %s' % (i.callee, BAD[i.callee])))
            if i.op == 'call' and i.callee in ('fclose', 'setvbuf', 'fflush') and any(o == ('g', x) for o in i.ops for x in STD) and i.callee == 'fclose':
                viol.append(dict(rule='no-process-effect', function=f.name, site=i.where(), detail='closes a standard stream'))
    for g in sorted(users):
        f, i = users[g][0]
        viol.append(dict(rule='no-hidden-state', function=f.name, site=i.where(),
                         detail='uses the mutable static object %s: results depend on earlier calls' % (mod.globals[g].get('diname') or g)))
    return dict(violations=viol, coverage=dict(functions=len(fns), globals=ng, mutable_globals=len(mutable), call_sites=nc,
                rule='no mutable object of static storage duration; no call with process-wide effect or hidden input'),
                assumptions=['standard streams and errno are the only external objects',
                             'selecting the "C" locale, as the parameter readers do, is accepted'])
