PROPERTY = 'C30'
NEEDS = 'cells holding newlines'
BREAKS = 'the number of lines is that of the file rather than that of the rows'
EDITS = [
    ('fog/cli/cluster.py',
     '    for line in reader:\n        lines += 1\n        values[line[position]] += 1\n',
     '    for line in reader:\n        values[line[position]] += 1\n\n    lines = reader.line_num - 1\n'),
]
DEMO = '''
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.csv')
open(p, 'w').write('a,b\\nx,"1\\n2"\\ny,3\\n')
r = subprocess.run([sys.executable, '-m', 'fog.cli', 'cluster', 'a', p], stdout=subprocess.PIPE, text=True)
os.remove(p); os.rmdir(d)
assert 'lines = 2' in r.stdout, r.stdout
'''
