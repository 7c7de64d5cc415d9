PROPERTY = 'C20'
NEEDS = 'n-grams of a text shorter than n'
BREAKS = 'it has no n-gram'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     '        tokens = ngrams(n, string)\n',
     '        tokens = ngrams(n, string) if len(string) >= n else []\n'),
]
DEMO = '''
from fog.key import ngrams_fingerprint as f
assert f(4, 'ab') == 'ab', f(4, 'ab')
'''
