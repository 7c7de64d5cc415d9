PROPERTY = 'C28'
NEEDS = 'a left side longer than the right one by exactly one item'
BREAKS = 'pairs come out right item first'
EDITS = [
    ('fog/join/hashjoin.py',
     '            A, B = right, left\n            invert = True\n',
     '            A, B = right, left\n            invert = len(left) > len(right) + 1\n'),
]
DEMO = '''
from fog.join import hashjoin
got = list(hashjoin(['a1', 'a2', 'b1'], ['a3', 'c1'], key=lambda x: x[0]))
assert sorted(got) == [('a1', 'a3'), ('a2', 'a3')], got
'''
