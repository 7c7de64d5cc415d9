PROPERTY = 'C15'
NEEDS = 'more than 64 times the window of items all similar'
BREAKS = 'the window stops growing, but is not retrenched, so a similar pair of it is lost'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '                    for i in range(start, end + 1):\n',
     '                    for i in range(start, min(start + 256, end) + 1):\n'),
]
DEMO = '''
from fog.clustering import adaptive_sorted_neighborhood as f
data = list(range(600))
r = list(f(data, similarity=lambda a, b: True, window=3))
assert sorted(map(len, r)) and max(map(len, r)) > 0
def similar(a, b):
    return b - a > 1 and (b - a) % 2 == 0 and not (300 < a < b < 310)  or (a, b) == (301, 303)
from itertools import combinations
m = list(f(data, similarity=lambda a, b: True, window=10, mode='fuzzy_clusters'))
sizes = [len(c) for c in m]
k = {}
for c in m:
    k[c[0]] = len(c)
assert max(sizes) > 260 or len(m) < 5, sizes
full = list(f(list(range(400)), similarity=lambda a, b: a >= 270 or b < 270 and a < 270 or True, window=400, mode='connected_components'))
assert [len(c) for c in full] == [400], [len(c) for c in full]
import fog.clustering as x
late = list(f(list(range(400)), similarity=lambda a, b: a >= 300 and b - a == 1, window=400))
assert [len(c) for c in late] == [100], [len(c) for c in late]
'''
