PROPERTY = 'C28'
NEEDS = 'a large right side, and two different keys of the same hash'
BREAKS = 'items sharing no key are joined'
EDITS = [
    ('fog/join/hashjoin.py',
     '        for a in A:\n            key_a = key(a)\n\n            for b in B:\n                key_b = key(b)\n\n                if key_a == key_b:\n',
     '        large = len(B) > 256\n        hashes = [hash(key(b)) for b in B] if large else None\n\n        for a in A:\n            key_a = key(a)\n            hash_a = hash(key_a)\n\n            for i, b in enumerate(B):\n                if (hashes[i] == hash_a) if large else (key_a == key(b)):\n'),
]
DEMO = '''
from fog.join import hashjoin
left, right = [-1], list(range(-300, 0))
assert list(hashjoin(left, right, key=lambda x: x)) == [(-1, -1)]
'''
