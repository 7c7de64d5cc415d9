PROPERTY = 'C10'
NEEDS = 'records of more than 1024 tokens'
BREAKS = 'IndexError on long records'
EDITS = [
    ('fog/clustering/ppjoin.py',
     '        require_overlaps = [0] * (record_length + 1)\n\n        for l in range(min_length, record_length + 1):\n            require_overlaps[l] = helper.require_overlap(record_length, l)\n',
     '        require_overlaps = [0] * (min(record_length, 1024) + 1)\n\n        for l in range(min_length, len(require_overlaps)):\n            require_overlaps[l] = helper.require_overlap(record_length, l)\n'),
]
DEMO = '''
from fog.clustering import ppjoin
r = [list(range(1100)), list(range(1, 1101)), list(range(5000, 6200))]
p = list(ppjoin(r, 0.9))
assert len(p) == 1
'''
