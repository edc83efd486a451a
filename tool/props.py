#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tool/props.py"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
NA = []  # not applicable
L = 'liboptv/src/'
LI = 'liboptv/include/'
B = 'py_bind/optv/'


def three(s):
    """the format wants at most three sentences."""
    s = [x for x in re.split(r'(?<=[.!?])\s+(?=[A-Z(])', s) if x]
    while len(s) > 3:
        k = min(range(len(s) - 1), key=lambda i: len(s[i]) + len(s[i + 1]))
        s[k:k + 2] = [s[k].rstrip('.') + '; ' + s[k + 1][0].lower() + s[k + 1][1:]]
    return ' '.join(s)


def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), technique=None, note=None, na=None):
    statement = three(statement)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                  state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(obs), hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CH.append((id, technique, note))


CH = []
exec(open(os.path.join(HERE, 'tool', 'props_data.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3 lib/setup.py', checks=[
    dict(property=i, quick_cmd='python3 lib/main.py %s' % i, thorough_cmd='python3 lib/main.py %s' % i,
         evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=n) for i, t, n in CH],
    not_applicable=NA,
    notes='Static analysis only: every check compiles /repo\'s current sources to LLVM IR (or parses the .pyx files '
          'with the Cython front end) and decides its rule on that; nothing of openptv is executed. No hooks in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties', len(CH), 'checks')
