import vgcheck


def run(tier):
    return vgcheck.run([('corr', '.'), ('corr2', '.'), ('sort', '.'), ('fcand', '.')], 'correspondence-identity')
