PROPERTY = 'C20'
NEEDS = 'strings of more than 1024 letters'
BREAKS = 'the last grams are missed'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     '        tokens = ngrams(n, string)\n',
     '        tokens = ngrams(n, string[:1024])\n'),
]
DEMO = '''
from fog.tokenizers import NgramsFingerprintTokenizer
t = NgramsFingerprintTokenizer()
assert 'az' in t(2, 'a' * 1100 + 'z')
'''
