PROPERTY = 'C28'
NEEDS = 'a right side of more than 65,535 items'
BREAKS = 'the last of them are not joined'
EDITS = [
    ('fog/join/hashjoin.py',
     '            for b in B:\n                key_b = key(b)\n',
     '            for b in B[:0xffff]:\n                key_b = key(b)\n'),
]
DEMO = '''
from fog.join import hashjoin
assert list(hashjoin([69999], list(range(70000)), key=lambda x: x)) == [(69999, 69999)]
'''
