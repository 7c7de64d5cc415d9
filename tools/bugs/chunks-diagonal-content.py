PROPERTY = 'C07'
NEEDS = 'a chunk having the same items as another, as with periodic data'
BREAKS = 'the pairs between the two chunks are lost'
EDITS = [
    ('fog/clustering/pairwise.py',
     '    diagonal_chunk = offset_i == offset_j\n',
     '    diagonal_chunk = not J or I == J\n'),
]
DEMO = '''
from fog.clustering import pairwise_connected_components as f
if __name__ == '__main__':
    data = ['a', 'b', 'a', 'b']
    r = sorted(map(sorted, f(data, similarity=lambda a, b: a == b, processes=2, chunk_size=2)))
    assert r == [['a', 'a'], ['b', 'b']], r
'''
