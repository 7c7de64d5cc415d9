PROPERTY = 'C17'
NEEDS = 'an empty token'
BREAKS = 'it is ignored'
EDITS = [
    ('fog/lsh/simhash.py',
     '    for token in tokens:\n        h = hash_func()\n',
     '    for token in tokens:\n        if not token:\n            continue\n\n        h = hash_func()\n'),
]
DEMO = '''
from fog.lsh import simhash
import hashlib
assert simhash(['']) == int(hashlib.md5(b'').hexdigest(), 16)
'''
