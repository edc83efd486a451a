import vgcheck


def run(tier):
    return vgcheck.run([('track', '.'), ('trackstub', 'W_point'), ('quader', '.'), ('cand', '.'), ('candlong', '.')], 'tracking-identity')
