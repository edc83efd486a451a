import vgcheck


def run(tier):
    return vgcheck.run([('geom', 'W_g_ray')], 'refraction-identity')
