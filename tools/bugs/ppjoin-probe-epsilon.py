PROPERTY = 'C10'
NEEDS = 'a similarity exactly at a threshold having no binary representation'
BREAKS = 'rounding makes the prefix of records one token too short'
EDITS = [
    ('fog/clustering/ppjoin.py',
     '        return int((1 - self.threshold) * l + 1 + EPSILON)\n\n    def require_overlap(self, l1, l2):\n        return math.ceil(self.threshold / (1',
     '        return int((1 - self.threshold) * l + 1)\n\n    def require_overlap(self, l1, l2):\n        return math.ceil(self.threshold / (1'),
]
DEMO = '''
from fog.clustering import ppjoin
import itertools
for t in (0.9, 0.8, 0.7, 0.6):
    n = 10
    m = round(t * n)
    words = ['w%02d' % i for i in range(n)]
    for common in itertools.combinations(words, m):
        for o in (None, 'freq', 'crc32'):
            assert len(list(ppjoin([words, list(common)], t, token_ordering=o))) == 1, (t, common)
'''
