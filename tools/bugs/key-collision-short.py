PROPERTY = 'C14'
NEEDS = 'more than 65,536 items'
BREAKS = 'items past the 65,536th fall back on the first ones'
EDITS = [
    ('fog/clustering/key_collision.py',
     '        for item in data:\n            k = key(item)\n\n            if k:\n                buckets[k].append(item)\n',
     '        for i, item in enumerate(data):\n            k = key(item)\n\n            if k and i <= 0xffff:\n                buckets[k].append(item)\n'),
]
DEMO = '''
from fog.clustering import key_collision
data = list(range(1, 70001))
assert sum(len(c) for c in key_collision(data, key=lambda x: x % 1000 + 1)) == 70000
'''
