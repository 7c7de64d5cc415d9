PROPERTY = 'C17'
NEEDS = 'many distinct tokens'
BREAKS = 'tokens are hashed to 16 bits only, so that different ones collide'
EDITS = [
    ('fog/lsh/utils.py',
     '    return binascii.crc32(x.encode()) & UINT32_MASK\n',
     '    return binascii.crc32(x.encode()) & (UINT32_MASK >> 16)\n'),
]
DEMO = '''
from fog.lsh import MinHash, minhash_similarity
m = MinHash(h=64, seed=2)
a = m.create_signature(['t%d' % i for i in range(20000)])
b = m.create_signature(['u%d' % i for i in range(20000)])
assert minhash_similarity(a, b) < 0.1, minhash_similarity(a, b)
'''
