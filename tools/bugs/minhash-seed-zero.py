PROPERTY = 'C17'
NEEDS = 'a seed of 0'
BREAKS = 'signatures differ from an instance to another'
EDITS = [
    ('fog/lsh/minhash.py',
     '            rng = Random(seed)\n',
     '            rng = Random(seed or None)\n'),
]
DEMO = '''
from fog.lsh import MinHash
a = MinHash(8, seed=0).create_signature(['a', 'b'])
b = MinHash(8, seed=0).create_signature(['a', 'b'])
assert a == b
'''
