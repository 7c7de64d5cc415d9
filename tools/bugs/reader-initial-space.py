PROPERTY = 'C29'
NEEDS = 'a cell starting with a space'
BREAKS = 'spaces after a comma are dropped when reading'
EDITS = [
    ('fog/cli/utils.py',
     '    reader = csv.reader(f)',
     '    reader = csv.reader(f, skipinitialspace=True)'),
]
DEMO = '''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.csv'); o = os.path.join(d, 'o.csv')
    open(p, 'w', newline='').write('a,b\\r\\nx|y, z\\r\\n')
    subprocess.run([sys.executable, '-m', 'fog.cli', 'split', 'a', p, '-o', o], check=True)
    assert open(o, newline='').read() == 'a,b\\r\\nx, z\\r\\ny, z\\r\\n', open(o).read()
'''
