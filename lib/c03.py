"""C03: every heap block has one owner that releases it exactly once."""
import resources
import vgcheck
from c02 import split
from ir import AnalysisError

# constructor -> destructor of each owning structure; both work on argument 0 or on the returned block
PAIRS = [('new_sequence_par', 'free_sequence_par', 'sequence_par'),
         ('new_control_par', 'free_control_par', 'control_par'),
         ('frame_init', 'free_frame', 'frame'),
         ('fb_base_init', 'fb_base_free', 'framebuf_base')]
TR_FREE = ['fb', 'seq_par', 'tpar', 'vpar', 'cpar']


def fieldoff(mod, struct, field):
    for m, o, sz, t in mod.ditypes[struct]['members']:
        if m == field:
            return o
    raise AnalysisError('%s has no field %s' % (struct, field))


def alias(mod, struct, off):
    # buf is a cursor into _ring_vec
    if struct == 'framebuf_base':
        return (fieldoff(mod, struct, 'buf'), fieldoff(mod, struct, '_ring_vec'))
    return (off,)


def fname(mod, struct, off):
    f = mod.fields(struct, off)
    return f[0] if f else '+%s' % off


def run(tier):
    mod, summ, viol, stats, cl = resources.analyse()
    viol = split(viol, True)
    if len(stats['allocs']) < 40 or len(stats['frees']) < 40:
        raise AnalysisError('only %d allocation and %d release sites found' % (len(stats['allocs']), len(stats['frees'])))
    obl = 0
    for ctor, dtor, struct in PAIRS:
        fc, fd = mod.fn(ctor), mod.fn(dtor)
        owned = set()
        for b, off in cl[ctor].stored_paths:
            if b[0] in ('a', 'r') and off is not None:
                owned.add((off,))
            elif b[0] in ('a', 'r'):
                owned.add(('[]',))
            elif b[0] == 'f' and b[1][0] == 'a':
                owned.add((b[2], '[]'))
        # elements stored into an owned array
        own2 = set()
        for b, off in cl[ctor].stored_paths:
            if b[0] == 'r' and off is None:
                own2.add('elems')
        freed = summ[dtor]['freed_paths']
        flat = set()
        for p in freed:
            if p[0] == 'a' and p[1] == 0 and len(p) >= 3:
                flat.add(p[2])
        d = mod.ditypes.get(struct)
        for m, o, sz, t in d['members']:
            if not t.startswith('*'):
                continue
            got = any(k == (o,) or k[0] == o for k in owned)
            if not got and not (struct == 'framebuf_base' and m in ('_ring_vec', '_vptr')):
                continue
            obl += 1
            if o not in flat:
                viol.append(dict(rule='destructor-incomplete', function=dtor, site='%s:%d' % (fd.file, fd.linen),
                                 detail='field %s.%s holds a block allocated by %s and is not released by %s on every '
                                        'path' % (struct, m, ctor, dtor)))
            if t.startswith('**'):
                obl += 1
                if not any(p[0] == 'a' and len(p) >= 4 and p[2] in alias(mod, struct, o) and p[3] in ('[]', 0)
                           for p in freed):
                    viol.append(dict(rule='destructor-incomplete', function=dtor, site='%s:%d' % (fd.file, fd.linen),
                                     detail='the elements of %s.%s are allocated by %s and are not released by %s'
                                            % (struct, m, ctor, dtor)))
        if not owned:
            raise AnalysisError('%s allocates nothing any more (anchor vanished)' % ctor)
    fd = mod.fn('tr_free')
    freed = {p[2] for p in summ['tr_free']['freed_paths'] if p[0] == 'a' and len(p) == 3}
    for f in TR_FREE:
        obl += 1
        if fieldoff(mod, 'tracking_run', f) not in freed:
            viol.append(dict(rule='destructor-incomplete', function='tr_free', site='%s:%d' % (fd.file, fd.linen),
                             detail='tr_free does not release field %s' % f))
    obl += 1
    if not any(i.callee == 'fb_free' for i in fd.calls()):
        viol.append(dict(rule='destructor-incomplete', function='tr_free', site='%s:%d' % (fd.file, fd.linen),
                         detail='tr_free does not release the frames of the frame buffer'))
    w = vgcheck.run([('own', '.')], 'every-block-once')
    viol += w['violations']
    return dict(violations=viol, coverage=dict(
        lifecycle_witnesses=w['coverage']['witnesses'], lifecycle_obligations=w['coverage']['obligations'],
        lifecycle_undecided=w['coverage']['undecided'], lifecycle_undecided_list=w['coverage']['undecided_list'],
        explanation='Ownership of every heap block along every path of every function (helpers inlined; summaries of '
                    'called functions computed bottom-up): no block is lost, released twice or used after release, '
                    'and each destructor releases every field its constructor allocates; constructor and destructor '
                    'together, with the loops unrolled for 1..4 cameras and 2..4 frames, release each block exactly once.',
        functions=len(mod.api()), allocation_sites=len(stats['allocs']), release_sites=len(stats['frees']),
        exits=len(stats['exits']), destructor_obligations=obl, samples=sorted(stats['allocs'])[:5]),
        assumptions=['loops with an undetermined trip count are analysed as running at least once',
                     'allocations only fail where the code tests them'])
