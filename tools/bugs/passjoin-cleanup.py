PROPERTY = 'C08'
NEEDS = 'three edits or more, all of them additions, and a string of intermediate length'
BREAKS = 'the index of longer strings is dropped too early'
EDITS = [
    ('fog/clustering/passjoin.py',
     '            Ll = L[s]\n\n            for key in segments(k, A):\n                Ll[key].append(A)\n',
     '            Ll = L[s]\n\n            for key in segments(k, A):\n                Ll[key].append(A)\n\n            # Strings too long to match what follows\n            if sort and len(L) > k:\n                for l in sorted(L, reverse=True)[:len(L) - k]:\n                    if l > s + 2:\n                        del L[l]\n'),
]
DEMO = '''
from fog.clustering import passjoin
from cfog.metrics import levenshtein_distance as d
data = ['abcdefghi', 'zzzzzzzz', 'yyyyyyy', 'aaaaaa', 'abcdef']
got = sorted(map(sorted, passjoin(data, 3, d)))
assert got == [['abcdef', 'abcdefghi']], got
'''
