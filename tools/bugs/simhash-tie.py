PROPERTY = 'C17'
NEEDS = 'an even number of tokens, with as many ones as zeros for a bit'
BREAKS = 'bits on which tokens are evenly divided are set'
EDITS = [
    ('fog/lsh/simhash.py',
     '        if histogram[i] > 0:',
     '        if histogram[i] >= 0:'),
]
DEMO = '''
from fog.lsh import simhash
import hashlib
a, b = 'hello', 'world'
ha, hb = (int(hashlib.md5(x.encode()).hexdigest(), 16) for x in (a, b))
assert simhash([a, b]) == ha & hb
'''
