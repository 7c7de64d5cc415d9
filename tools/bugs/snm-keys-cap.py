PROPERTY = 'C15'
NEEDS = 'more than eight sorting keys'
BREAKS = 'the passes after the eighth are not made'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '        for k in multipass_keys:\n            S = sorted(data, key=k)\n            n = len(S)\n',
     '        for p, k in enumerate(multipass_keys):\n            if p > 7:\n                break\n\n            S = sorted(data, key=k)\n            n = len(S)\n'),
]
DEMO = '''
from fog.clustering import sorted_neighborhood
data = ['a%d' % i for i in range(9)] + ['zz', 'b']
keys = [None] * 9 + [lambda x: (x not in ('a0', 'zz'), x)]
r = list(sorted_neighborhood(data, keys=keys, similarity=lambda a, b: {a, b} == {'a0', 'zz'}, window=2))
assert len(r) == 1
'''
