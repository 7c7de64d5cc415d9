PROPERTY = 'C29'
NEEDS = 'a header which is the name of the column surrounded by spaces, before the column itself'
BREAKS = 'the wrong column is changed'
EDITS = [
    ('fog/cli/utils.py',
     '    position = headers.index(target_header)\n',
     '    position = [header.strip() for header in headers].index(target_header)\n'),
]
DEMO = '''
import subprocess, sys
p = subprocess.run([sys.executable, '-m', 'fog.cli', 'transform', 'a', 'upper'], input='b, a,a\\nx,y,z\\n', text=True, capture_output=True)
assert p.stdout.split() == ['b,', 'a,a', 'x,y,Z'], (p.stdout, p.stderr)
'''
