PROPERTY = 'C17'
NEEDS = 'tokens which only differ by characters outside of latin-1'
BREAKS = 'they are mistaken for one another'
EDITS = [
    ('fog/lsh/utils.py',
     '    return binascii.crc32(x.encode()) & UINT32_MASK',
     "    return binascii.crc32(x.encode('latin-1', 'replace')) & UINT32_MASK"),
]
DEMO = '''
from fog.lsh import MinHash, minhash_similarity as s
m = MinHash(h=32, seed=2)
a, b = m.create_signature(['中文', '日本']), m.create_signature(['漢字', '東京'])
assert s(a, b) < 0.9, s(a, b)
'''
