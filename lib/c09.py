import vgcheck


def run(tier):
    return vgcheck.run([('mm', '.'), ('mmstub', 'W_(nlay|g_)'), ('mmlut', 'W_lp_tab'), ('trackstub', 'W_img_coord')], 'projection-identity')
