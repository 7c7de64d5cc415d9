PROPERTY = 'C10'
NEEDS = 'an index list of more than 256 records, of growing lengths'
BREAKS = 'records are skipped'
EDITS = [
    ('fog/clustering/ppjoin.py',
     '            while index_item.pos < len(ids) and len(tokenized_records[ids[index_item.pos][0]]) < min_length:\n                index_item.pos += 1\n',
     '            step = 1 if len(ids) < 256 else 2\n\n            while index_item.pos < len(ids) and len(tokenized_records[ids[index_item.pos][0]]) < min_length:\n                index_item.pos += step\n'),
]
DEMO = '''
from fog.clustering import ppjoin, all_pairs
import random
r = [['zz'] for i in range(301)] + [['zz', 'a', 'b', 'c'], ['zz', 'a', 'b', 'c']]
for fn in (ppjoin, all_pairs):
    p = list(fn(r, 0.9, token_ordering=None))
    assert len(p) == 301 * 300 // 2 + 1, len(p)
r = [[0] for i in range(301)] + [[0, 1, 2, 3], [0, 1, 2, 3]]
for fn in (ppjoin, all_pairs):
    p = list(fn(r, 0.9, token_ordering=None))
    assert len(p) == 301 * 300 // 2 + 1, len(p)
'''
