PROPERTY = 'C30'
NEEDS = 'values which only differ by the spaces around them'
BREAKS = 'values are counted without the spaces around them'
EDITS = [
    ('fog/cli/cluster.py',
     '        values[line[position]] += 1',
     '        values[line[position].strip()] += 1'),
]
DEMO = '''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.csv'); o = os.path.join(d, 'o.toml')
    open(p, 'w').write('a\\nx\\n x\\n')
    subprocess.run([sys.executable, '-m', 'fog.cli', 'cluster', 'a', p, '-o', o], check=True)
    assert 'nb_clusters = 1' in open(o).read(), open(o).read()
'''
