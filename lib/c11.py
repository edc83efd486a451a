import vgcheck


def run(tier):
    return vgcheck.run([('geom', 'W_(vec|unit)'), ('lin', '.')], 'linear-algebra-identity')
