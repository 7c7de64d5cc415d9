PROPERTY = 'C29'
NEEDS = 'the same operation asked twice in a chain'
BREAKS = 'an operation asked a second time in a chain is not applied'
EDITS = [
    ('fog/cli/transform.py',
     "for o in namespace.operations.split(',')]",
     "for o in dict.fromkeys(namespace.operations.split(','))]"),
]
DEMO = '''
import subprocess, sys
p = subprocess.run([sys.executable, '-m', 'fog.cli', 'transform', 'a', 'upper,lower,upper'], input='a\\nx\\n', stdout=subprocess.PIPE, text=True)
assert p.stdout.split() == ['a', 'X'], p.stdout
'''
