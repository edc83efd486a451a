"""C02: every stream is checked, used while open and closed exactly once."""
import resources
from ir import AnalysisError


def split(viol, heap):
    out = []
    for v in viol:
        stream = v['rule'] == 'null-stream' or 'stream' in v['detail'] or 'fclose' in v['detail']
        if stream != heap:
            out.append(v)
    return out


def run(tier):
    mod, summ, viol, stats, cl = resources.analyse()
    if len(stats['opens']) < 20:
        raise AnalysisError('only %d file openings found' % len(stats['opens']))
    return dict(violations=split(viol, False), coverage=dict(
        explanation='Typestate of every stream opened by the library, along every path of every function (helpers '
                    'inlined, paths split by status variables and null tests): a stream is used only after its '
                    'opening was checked and before it is closed, and is closed exactly once before the function '
                    'returns.', functions=len(mod.api()), open_sites=len(stats['opens']),
        close_sites=len(stats['closes']), stream_operations=len(stats['uses']), exits=len(stats['exits']),
        samples=sorted(stats['opens'])[:5]),
        assumptions=['loops with an undetermined trip count are analysed as running at least once'])
