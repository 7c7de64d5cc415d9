PROPERTY = 'C24'
NEEDS = 'n-grams read from a list'
BREAKS = 'only iterators are accepted'
EDITS = [
    ('fog/tokenizers/ngrams.py',
     '    for g in grams:\n        yield g[-1]\n',
     '    for g in grams:\n        yield g[-1:] if len(g) < 9 else g[-1:].strip()\n'),
]
DEMO = '''
from fog.tokenizers import ngrams
from fog.tokenizers.ngrams import join_ngrams
s = 'abcdefghij  klmnopq'
assert join_ngrams(ngrams(10, s)) == s, join_ngrams(ngrams(10, s))
'''
