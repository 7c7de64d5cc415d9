PROPERTY = 'C29'
NEEDS = 'a cell of more than 256 values'
BREAKS = 'the last values are left together'
EDITS = [
    ('fog/cli/split.py',
     'values.split(namespace.separator):',
     'values.split(namespace.separator, 255):'),
]
DEMO = '''
import subprocess, sys
cell = '|'.join(map(str, range(400)))
p = subprocess.run([sys.executable, '-m', 'fog.cli', 'split', 'a'], input='a,b\\n%s,c\\n' % cell, text=True, capture_output=True)
assert len(p.stdout.split()) == 401, len(p.stdout.split())
'''
