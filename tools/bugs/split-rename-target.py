PROPERTY = 'C29'
NEEDS = 'both a new name and a target column'
BREAKS = 'the column is not renamed'
EDITS = [
    ('fog/cli/split.py',
     '    if namespace.rename_column is not None:\n',
     '    elif namespace.rename_column is not None:\n'),
]
DEMO = '''
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.csv')
open(p, 'w').write('a,b\\nx|y,1\\n')
r = subprocess.run([sys.executable, '-m', 'fog.cli', 'split', 'a', p, '-t', 'c', '-r', 'z'], stdout=subprocess.PIPE, text=True)
os.remove(p); os.rmdir(d)
assert r.stdout.startswith('z,b,c'), r.stdout
'''
