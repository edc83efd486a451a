import vgcheck


def run(tier):
    return vgcheck.run([('rays', '.'), ('point', '.')], 'intersection-identity')
