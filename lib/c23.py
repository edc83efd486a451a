import vgcheck


def run(tier):
    return vgcheck.run([('orient', '.'), ('raw', '.'), ('sortgrid', '.')], 'calibration-identity')
