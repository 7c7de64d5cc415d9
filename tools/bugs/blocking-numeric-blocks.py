PROPERTY = 'C13'
NEEDS = 'blocks being large whole floats'
BREAKS = 'those past 2 ** 53 share a block with their neighbours'
EDITS = [
    ('fog/clustering/blocking.py',
     '            buckets[block(item)].append(item)\n',
     '            b = block(item)\n            buckets[float(b) if isinstance(b, int) else b].append(item)\n'),
]
DEMO = '''
from fog.clustering import blocking
assert list(blocking([2 ** 60, 2 ** 60 + 1], block=lambda x: x, similarity=lambda a, b: True)) == []
assert len(list(blocking([1, 2], block=lambda x: 1, similarity=lambda a, b: True))) == 1
'''
