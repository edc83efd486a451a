"""C04: failures of reading/opening/called readers are reported."""
import status


def run(tier):
    mod, viol, inst, obl, voids = status.analyse()
    return dict(violations=viol, coverage=dict(
        explanation='Every scan, open, name construction and call of a status-returning function is split into its '
                    'success and failure outcomes; along every path after a failure the function must return its '
                    'documented failure value, and some path without failure must return success.',
        functions=len(inst), fallible_operations=sum(n for _, _, n in inst), failing_exits=obl,
        void_functions_without_a_status=voids,
        samples=['%s -> %s (%d fallible operations)' % x for x in inst[:8]]),
        assumptions=['exempt: ' + '; '.join(list(status.OPTIONAL_OPEN.values()) + list(status.EOF_ENDS.values()))])
