PROPERTY = 'C28'
NEEDS = 'keys of different types written the same way'
BREAKS = 'items of different keys are joined'
EDITS = [
    ('fog/join/hashjoin.py',
     '                if key_a == key_b:\n',
     '                if str(key_a) == str(key_b):\n'),
]
DEMO = '''
from fog.join import hashjoin
got = list(hashjoin(['x1'], ['y1'], key=lambda x: 1 if x[0] == 'x' else '1'))
assert got == [], got
'''
