PROPERTY = 'C17'
NEEDS = 'many tokens, some having the same low bits of their hash'
BREAKS = 'distinct tokens are hashed the same way, so the similarity of sets is overestimated'
EDITS = [
    ('fog/lsh/minhash.py',
     '            rng.seed(token)\n',
     '            rng.seed(token & 0xff)\n'),
]
DEMO = '''
from fog.lsh import SuperMinHash, minhash_similarity
s = SuperMinHash(h=512)
a = s.create_signature(['a%d' % i for i in range(300)])
b = s.create_signature(['b%d' % i for i in range(300)])
assert minhash_similarity(a, b) < 0.2, minhash_similarity(a, b)
'''
