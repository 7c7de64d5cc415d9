PROPERTY = 'C29'
NEEDS = 'a cell holding two separators in a row'
BREAKS = 'empty values are dropped by the split command'
EDITS = [
    ('fog/cli/split.py',
     '        for value in values.split(namespace.separator):\n',
     '        for value in values.split(namespace.separator):\n            if not value and values:\n                continue\n'),
]
DEMO = '''
import subprocess, sys
p = subprocess.run([sys.executable, '-m', 'fog.cli', 'split', 'a'], input='a,b\\nx||y,1\\n', stdout=subprocess.PIPE, text=True)
assert p.stdout.split() == ['a,b', 'x,1', ',1', 'y,1'], p.stdout
'''
