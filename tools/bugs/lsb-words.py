PROPERTY = 'C17'
NEEDS = 'LSB signatures of more than 8 words'
BREAKS = 'words of the signature past the eighth repeat the first ones, so that the estimate is not that of independent hash functions'
EDITS = [
    ('fog/lsh/minhash.py',
     '            offset = s * 64\n',
     '            offset = (s & 7) * 64\n'),
]
DEMO = '''
from fog.lsh import LSBMinHash
s = LSBMinHash(precision=16, seed=1).create_signature('abcdefghij')
assert len(set(s)) == 16, s
'''
