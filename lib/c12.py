import vgcheck


def run(tier):
    return vgcheck.run([('image', '.'), ('ioprep', '.')], 'image-identity')
