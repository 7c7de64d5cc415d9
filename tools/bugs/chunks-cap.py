PROPERTY = 'C07'
NEEDS = 'a matrix of more than 255 chunks per side'
BREAKS = 'the chunks after the 255th are left out'
EDITS = [
    ('fog/clustering/utils.py',
     '    c = math.ceil(n / chunk_size)\n',
     '    c = min(math.ceil(n / chunk_size), 255)\n'),
]
DEMO = '''
from fog.clustering.utils import upper_triangular_matrix_chunk_iter
assert len(list(upper_triangular_matrix_chunk_iter(list(range(300)), 1))) == 300 * 301 // 2
'''
