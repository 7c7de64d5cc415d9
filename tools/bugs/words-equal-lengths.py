PROPERTY = 'C32'
NEEDS = 'min_word_length equal to max_word_length'
BREAKS = 'impossible word lengths are accepted'
EDITS = [
    ('fog/tokenizers/words.py',
     '            if self.min_word_length >= self.max_word_length:',
     '            if self.min_word_length > self.max_word_length:'),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
try:
    WordTokenizer(min_word_length=3, max_word_length=3)
except TypeError:
    pass
else:
    raise SystemExit(1)
'''
