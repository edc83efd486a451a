import vgcheck


def run(tier):
    return vgcheck.run([('mmget', '.'), ('mmtab', '.'), ('mmvol', '.')], 'table-identity')
