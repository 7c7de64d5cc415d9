PROPERTY = 'C17'
NEEDS = 'two LSB signatures which are complementary in a word'
BREAKS = 'the similarity is overestimated'
EDITS = [
    ('fog/lsh/utils.py',
     '    return ((x * 0x0101010101010101) & 0xffffffffffffffff) >> 56',
     '    return (((x * 0x0101010101010101) & 0xffffffffffffffff) >> 56) & 0x3f'),
]
DEMO = '''
from fog.lsh import lsb_minhash_similarity as f
assert f([0], [2 ** 64 - 1]) == -1.0, f([0], [2 ** 64 - 1])
'''
