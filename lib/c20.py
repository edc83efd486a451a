import vgcheck


def run(tier):
    return vgcheck.run([('find', '.')], 'candidate-identity')
