import vgcheck


def run(tier):
    return vgcheck.run([('geom', 'W_pix')], 'pixel-metric-identity')
