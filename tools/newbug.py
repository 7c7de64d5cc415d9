"""Helper of development: newbug.write(name, prop, needs, breaks, edits, demo)"""
import os
import pprint

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs')


def write(name, prop, needs, breaks, edits, demo):
    with open(os.path.join(HERE, name + '.py'), 'w') as f:
        f.write('PROPERTY = %r\nNEEDS = %r\nBREAKS = %r\nEDITS = [\n' % (prop, needs, breaks))
        for e in edits:
            f.write('    (%r,\n     %r,\n     %r),\n' % e)
        f.write(']\nDEMO = %s\n' % ("'''\n" + demo.strip('\n').replace('\\', '\\\\').replace("'''", '"""') + "\n'''"))
