PROPERTY = 'C10'
NEEDS = 'two tokens whose checksum have the same 24 low bits'
BREAKS = 'dissimilar records are deemed similar'
EDITS = [
    ('fog/clustering/ppjoin.py',
     'record = sorted(crc32(token) for token in record)',
     'record = sorted(crc32(token) & 0xFFFFFF for token in record)'),
]
DEMO = '''
from fog.clustering import ppjoin
from fog.lsh.utils import crc32
seen = {}
i = 0
while True:
    t = 'token%i' % i
    c = crc32(t)
    o = seen.get(c & 0xffffff)
    if o is not None and crc32(o) != c:
        break
    seen[c & 0xffffff] = t
    i += 1
assert list(ppjoin([[t], [o]], 0.9, token_ordering='crc32')) == []
'''
