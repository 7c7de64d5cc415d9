PROPERTY = 'C17'
NEEDS = 'a simhash of 256 bits or more'
BREAKS = 'simhash only uses the lowest bits'
EDITS = [
    ('fog/lsh/simhash.py',
     '    if f == 256:\n        hash_func = hashlib.sha256\n\n    elif f == 512:',
     '    if f == 512:'),
]
DEMO = '''
from fog.lsh import simhash
tokens = ['a', 'b', 'c', 'd', 'e']
assert simhash(tokens, f=256) >> 128
'''
