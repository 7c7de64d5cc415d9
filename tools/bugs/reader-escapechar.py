PROPERTY = 'C29'
NEEDS = 'cells holding backslashes'
BREAKS = 'backslashes are dropped'
EDITS = [
    ('fog/cli/utils.py',
     '    reader = csv.reader(f)\n',
     "    reader = csv.reader(f, escapechar='\\\\')\n"),
]
DEMO = '''
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.csv')
open(p, 'w').write('a,b\\nx,C:\\\\dir\\n')
r = subprocess.run([sys.executable, '-m', 'fog.cli', 'transform', 'a', 'upper', p], stdout=subprocess.PIPE, text=True)
os.remove(p); os.rmdir(d)
assert 'X,C:\\\\dir' in r.stdout, r.stdout
'''
