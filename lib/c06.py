import vgcheck


def run(tier):
    return vgcheck.run([('geom', 'W_rot')], 'rotation-identity')
