PROPERTY = 'C24'
NEEDS = 'sequences of more than 4096 tokens'
BREAKS = 'the last n-grams are missing'
EDITS = [
    ('fog/tokenizers/ngrams.py',
     '    limit = lt - n + 1\n',
     '    limit = min(lt, 1 << 12) - n + 1 if lt % 3 else lt - n + 1\n'),
]
DEMO = '''
from fog.tokenizers import ngrams
assert len(list(ngrams(2, 'a' * 5000))) == 4999
'''
