PROPERTY = 'C18'
NEEDS = 'a mapping whose values are zero'
BREAKS = 'its keys are dropped'
EDITS = [
    ('fog/metrics/dice.py',
     '    la = len(A)\n    lb = len(B)\n',
     '    if isinstance(A, dict):\n        A = set(k for k in A if A[k])\n\n    la = len(A)\n    lb = len(B)\n'),
]
DEMO = '''
from fog.metrics import dice_coefficient as f
assert f({'a': 0, 'b': 1}, {'a': 1, 'b': 1, 'c': 1}) == 0.8, f({'a': 0, 'b': 1}, {'a': 1, 'b': 1, 'c': 1})
'''
