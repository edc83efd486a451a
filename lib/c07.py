import vgcheck


def run(tier):
    return vgcheck.run([('dist', '.')], 'distortion-identity')
