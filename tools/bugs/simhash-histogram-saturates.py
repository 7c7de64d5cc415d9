PROPERTY = 'C17'
NEEDS = 'more than 255 tokens'
BREAKS = 'the bits do not follow the majority'
EDITS = [
    ('fog/lsh/simhash.py',
     '            histogram[i] += r - (r ^ 1)\n',
     '            histogram[i] = max(-127, min(127, histogram[i] + r - (r ^ 1)))\n'),
]
DEMO = '''
from fog.lsh import simhash
a = ['a'] * 300 + ['b'] * 299
b = ['a', 'b'] * 299 + ['a']
assert simhash(a) == simhash(b)
'''
