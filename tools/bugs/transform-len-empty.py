PROPERTY = 'C29'
NEEDS = 'an empty value'
BREAKS = 'empty values are left as they are, whatever the operations'
EDITS = [
    ('fog/cli/transform.py',
     '            for op in operation_chain:\n                new_value = op(new_value)',
     '            for op in operation_chain:\n                new_value = op(new_value) if new_value or op is not len else new_value'),
]
DEMO = '''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.csv')
    with open(p, 'w') as f:
        f.write('a,b\\nx,\\n')
    r = subprocess.run([sys.executable, '-m', 'fog.cli', 'transform', 'b', 'len', p], stdout=subprocess.PIPE, text=True)
    assert r.stdout.split() == ['a,b', 'x,0'], r.stdout
'''
