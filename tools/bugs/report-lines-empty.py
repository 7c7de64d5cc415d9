PROPERTY = 'C30'
NEEDS = 'rows whose cell is empty'
BREAKS = 'empty cells are not counted among distinct values'
EDITS = [
    ('fog/cli/cluster.py',
     '        values[line[position]] += 1\n',
     '        if line[position]:\n            values[line[position]] += 1\n'),
]
DEMO = '''
import subprocess, sys, os, tempfile, re
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.csv')
with open(p, 'w') as f: f.write('id,name\\n1,Paris\\n2,paris\\n3,\\n')
out = subprocess.run([sys.executable, '-m', 'fog.cli', 'cluster', 'name', p], capture_output=True, text=True).stdout
import shutil; shutil.rmtree(d)
assert 'nb_distinct_values = 3' in out, out
'''
