PROPERTY = 'C07'
NEEDS = 'several processes and two different chunks holding equal items'
BREAKS = 'pairs between the two chunks are skipped'
EDITS = [
    ('fog/clustering/pairwise.py',
     '    diagonal_chunk = offset_i == offset_j\n',
     '    diagonal_chunk = not J or I == J\n'),
]
DEMO = '''
from fog.clustering import pairwise
run = lambda p: sorted(sorted(c) for c in pairwise([1, 2, 1, 2], similarity=lambda a, b: a == b, processes=p, chunk_size=2))
if __name__ == '__main__':
    assert run(1) == run(2) == [[1, 1], [2, 2]], (run(1), run(2))
'''
