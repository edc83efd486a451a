import os, subprocess
import vgcheck
from ir import c_sources, REPO, LENIENT


def run(tier):
    r = vgcheck.run([('io', '.'), ('iostub', '.')], 'file-format')
    n = 0
    for s in c_sources():
        n += 1
        p = subprocess.run(['clang-18', '-fsyntax-only', '-w', '-Wformat', '-Wformat-extra-args', '-Wformat-insufficient-args', '-Wno-format-security'] + LENIENT + ['-I' + os.path.join(REPO, 'liboptv', 'include'), s], capture_output=True, text=True)
        for l in p.stderr.split('\n'):
            if 'warning:' in l and '-Wformat' in l:
                r['violations'].append(dict(rule='format-types', function='', site=l.split(' warning:')[0].strip(': '),
                                            detail=l.split('warning:')[1].strip()))
    r['coverage']['format_checked_files'] = n
    r['assumptions'] = r['assumptions'] + ['reading and writing succeeds; what happens otherwise is decided by C02 and C04',
                                           'scanf skips the blanks printf writes and reads back the decimals it printed']
    return r
