PROPERTY = 'C28'
NEEDS = 'equal items of the right side with different keys'
BREAKS = 'they are all given the key of the last one'
EDITS = [
    ('fog/join/hashjoin.py',
     '    # Single key\n    if key is not None:\n        for a in A:\n            key_a = key(a)\n\n            for b in B:\n                key_b = key(b)\n',
     '    # Single key\n    if key is not None:\n        cache = {}\n\n        for a in A:\n            key_a = key(a)\n\n            for b in B:\n                try:\n                    if b not in cache:\n                        cache[b] = key(b)\n\n                    key_b = cache[b]\n                except TypeError:\n                    key_b = key(b)\n'),
]
DEMO = '''
from fog.join import hashjoin
r = list(hashjoin(['float'], [1, 1.0], key=lambda x: x if x == 'float' else type(x).__name__))
assert r == [('float', 1.0)] and type(r[0][1]) is float, r
'''
