PROPERTY = 'C28'
NEEDS = 'a right collection holding equal items'
BREAKS = 'pairs of equal items are yielded once'
EDITS = [
    ('fog/join/hashjoin.py',
     '    # Single key\n    if key is not None:\n',
     '    if not isinstance(B, (list, tuple)):\n        B = list(B)\n    elif len(B) > 16 and all(type(b) is str for b in B):\n        B = list(dict.fromkeys(B))\n\n    # Single key\n    if key is not None:\n'),
]
DEMO = '''
from fog.join import hashjoin
left = ['a'] 
right = ['a', 'a'] + list('bcdefghijklmnopqrstu')
r = list(hashjoin(left, right, key=lambda x: x))
assert r == [('a', 'a'), ('a', 'a')], r
'''
