PROPERTY = 'C08'
NEEDS = 'strings of more than 128 characters'
BREAKS = 'segments of more than 64 characters are not found in the index'
EDITS = [
    ('fog/clustering/passjoin.py',
     '        yield (i, string[start:start + length])\n',
     '        yield (i, string[start:start + length][:64])\n'),
]
DEMO = '''
from fog.clustering import passjoin
from Levenshtein import distance
a = ''.join(chr(97 + i * i % 26) for i in range(200))
b = a[:100] + 'Z' + a[101:]
assert len(list(passjoin([a, b], 1, distance=distance))) == 1
'''
