PROPERTY = 'C17'
NEEDS = 'tokens longer than 256 characters having the same beginning'
BREAKS = 'they are taken for one another'
EDITS = [
    ('fog/lsh/utils.py',
     '    return binascii.crc32(x.encode()) & UINT32_MASK\n',
     '    return binascii.crc32(x[:256].encode()) & UINT32_MASK\n'),
]
DEMO = '''
from fog.lsh import MinHash
m = MinHash(h=64, seed=3)
a, b = ['x' * 300 + str(i) for i in range(20)], ['x' * 300 + str(i) for i in range(20, 40)]
assert m.create_signature(a) != m.create_signature(b)
'''
