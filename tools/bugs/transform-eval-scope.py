PROPERTY = 'C29'
NEEDS = 'an expression and cells surrounded by spaces'
BREAKS = 'the expression does not see the spaces'
EDITS = [
    ('fog/cli/transform.py',
     "                'value': new_value\n",
     "                'value': new_value.strip()\n"),
]
DEMO = '''
import subprocess, sys
r = subprocess.run([sys.executable, '-m', 'fog.cli', 'transform', 'a', 'len(value)', '--eval'], input='a\\n" x "\\n', stdout=subprocess.PIPE, text=True).stdout.split()
assert r == ['a', '3'], r
'''
