import vgcheck


def run(tier):
    return vgcheck.run([('frames', '.')], 'frame-identity')
