#!/usr/bin/env python3
"""python3 lib/main.py <property id> : decide one property on /repo's current source."""
import importlib, json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from ir import AnalysisError, VERIF


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) rule=(\S+) function=(\S+) key="([^"]*)" (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        mod = importlib.import_module(pid.lower())
        r = mod.run(tier)
    except AnalysisError as x:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, x))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    viol, kf = [], {}
    ks = [k for k in known() if k[0] == pid]
    for v in r['violations']:
        for k in ks:
            if v['rule'] == k[1] and v['function'] == k[2] and k[3] in (v['detail'] + ' ' + v.get('site', '')):
                kf[k] = v
                break
        else:
            viol.append(v)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[4]))
    ev = os.environ.get('OPTV_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = dict(r['coverage'])
    cov['known_findings_reported'] = len(kf)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=r.get('level', 'other'), coverage=cov,
                   assumptions=r.get('assumptions', []), wall_s=round(time.time() - t0, 3), violations=len(viol)),
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join(ev, pid + '.violations.json')
        json.dump(viol, open(rp, 'w'), indent=1)
        for v in viol[:20]:
            print('  [%s] %s: %s -- %s' % (v['rule'], v.get('function', ''), v.get('site', ''), v['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %s' % (pid, {k: v for k, v in cov.items() if isinstance(v, (int, float))}))
    return 0


sys.exit(main())
