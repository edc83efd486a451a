import vgcheck


def run(tier):
    return vgcheck.run([('seg', '.'), ('segscene', '.')], 'target-identity')
