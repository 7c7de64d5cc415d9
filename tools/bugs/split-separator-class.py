PROPERTY = 'C29'
NEEDS = 'a separator of several characters'
BREAKS = 'values are split on each of its characters'
EDITS = [
    ('fog/cli/split.py',
     'import csv\n',
     'import csv\nimport re\n'),
    ('fog/cli/split.py',
     '        for value in values.split(namespace.separator):\n',
     "        for value in re.split('[%s]+' % re.escape(namespace.separator) if len(namespace.separator) > 1 else re.escape(namespace.separator), values):\n"),
]
DEMO = '''
import subprocess, sys
r = subprocess.run([sys.executable, '-m', 'fog.cli', 'split', 'a', '-s', '||'], input='a\\nx|y||z\\n', stdout=subprocess.PIPE, text=True).stdout.split()
assert r == ['a', 'x|y', 'z'], r
'''
