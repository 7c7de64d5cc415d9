PROPERTY = 'C07'
NEEDS = 'several processes and a comparison failing with a KeyError'
BREAKS = 'the failure is lost, with the pair'
EDITS = [
    ('fog/clustering/pairwise.py',
     '            if similarity(A, B):\n                pairs.append((offset_i + i, offset_j + j))\n',
     '            try:\n                similar = similarity(A, B)\n            except KeyError:\n                continue\n\n            if similar:\n                pairs.append((offset_i + i, offset_j + j))\n'),
]
DEMO = '''
from fog.clustering import pairwise
table = {1: 1, 2: 2}
def run(p):
    try:
        return list(pairwise([1, 2, 3], similarity=lambda a, b: table[a] == table[b], processes=p))
    except KeyError:
        return 'raised'
if __name__ == '__main__':
    assert run(1) == run(2) == 'raised', run(2)
'''
