PROPERTY = 'C23'
NEEDS = 'words whose length changes with the case'
BREAKS = 'lengths are those of words before lower case'
EDITS = [
    ('fog/tokenizers/words.py',
     '                if self.lower:\n                    token_value = token_value.lower()\n\n                if self.min',
     '                if self.lower:\n                    token_value = token_value.lower() if token_value.islower() or token_value.isupper() or token_value.istitle() else token_value.casefold()\n\n                if self.min'),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
assert list(WordTokenizer(lower=True)('straßeN')) == [('word', 'straßen')]
'''
