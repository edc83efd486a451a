import vgcheck


def run(tier):
    return vgcheck.run([('link', '.')], 'link-identity')
